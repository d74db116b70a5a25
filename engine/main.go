package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "verif directory")
	only := flag.String("only", "", "only this harness function")
	budget := flag.Int("time", 0, "time budget in seconds")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	prof := flag.Bool("profile", false, "fork profile")
	noreplay := flag.Bool("noreplay", false, "print candidates without replay")
	cpu := flag.String("cpuprofile", "", "")
	replayFile := flag.String("replay", "", "re-run a recorded violation natively")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run(*prop, *verif, *only, *budget, *workers, *prof, *noreplay, *replayFile)
	if *cpu != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func run(prop, verif, only string, budget, nw int, prof, noreplay bool, replayFile string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	if budget == 0 {
		budget = 400
		if thorough {
			budget = 4000
		}
		if b := os.Getenv("VERIF_BUDGET"); b != "" {
			budget, _ = strconv.Atoi(b)
		}
	}
	pkg := strings.ToLower(prop)
	os.MkdirAll(filepath.Join(verif, "build"), 0755)
	dir, err := os.MkdirTemp(filepath.Join(verif, "build"), pkg+"-")
	if err != nil {
		logf("scratch: %v", err)
		return 2
	}
	defer os.RemoveAll(dir)
	rp := newReplayer(verif, dir, pkg, nil)
	if replayFile != "" {
		b, err := os.ReadFile(replayFile)
		if err != nil {
			logf("%v", err)
			return 2
		}
		var c Candidate
		json.Unmarshal(b, &c)
		r, err := rp.Run(&c, thorough)
		if err != nil {
			logf("%v", err)
			return 2
		}
		j, _ := json.MarshalIndent(r, "", "  ")
		fmt.Println(string(j))
		if r.violated() != "" {
			return 1
		}
		return 0
	}
	eng, err := loadEngine(filepath.Join(verif, "harness"), harnessMod+"/"+pkg, baseEnv(), []string{"-tags=math_big_pure_go"})
	if err != nil {
		logf("load: %v", err)
		return 2
	}
	eng.cfg.Thorough = thorough
	eng.profile = prof
	loadS := time.Since(start).Seconds()
	names, err := harnessNames(filepath.Join(verif, "harness", pkg))
	if err != nil {
		logf("%v", err)
		return 2
	}
	known := knownFindings(filepath.Join(verif, "known_findings.json"), prop)

	var mu sync.Mutex
	var violation *Candidate
	knownHit := map[string]string{}
	spurious := map[string]int{}
	shapes := map[string]map[string]bool{}
	spuriousMsg := map[string]string{}
	onCand := func(c *Candidate) bool {
		if noreplay {
			j, _ := json.Marshal(c)
			logf("candidate %s", j)
			return false
		}
		key := c.Harness + ":" + c.Label
		mu.Lock()
		n := spurious[key]
		// after the first few, one replay for each way of having chosen, up to a limit
		if violation != nil || n >= 4 && (shapes[key][c.Shape] || len(shapes[key]) >= 200) {
			spurious[key]++
			mu.Unlock()
			return violation != nil
		}
		if shapes[key] == nil {
			shapes[key] = map[string]bool{}
		}
		shapes[key][c.Shape] = true
		mu.Unlock()
		r, err := rp.Run(c, thorough)
		// map iteration and scheduling differ between native runs
		for i := 0; i < 7 && n < 4 && err == nil && r.violated() == "" && !c.Probe; i++ {
			r, err = rp.Run(c, thorough)
		}
		mu.Lock()
		defer mu.Unlock()
		if c.Probe && (err != nil || r.violated() == "") {
			return false
		}
		if err != nil {
			spurious[key]++
			spuriousMsg[key] = "replay failed: " + err.Error()
			return false
		}
		if v := r.violated(); v != "" {
			for _, k := range known {
				if k.Harness == c.Harness && k.Label == v {
					knownHit[v] = k.What
					return false
				}
			}
			if violation == nil {
				c.Msg = strings.TrimSpace(c.Msg + " | natively: " + v)
				violation = c
			}
			return true
		}
		spurious[key]++
		j, _ := json.Marshal(c)
		spuriousMsg[key] = fmt.Sprintf("not reproduced natively: assume=%q done=%v %s", r.Assume, r.Done, j)
		return false
	}

	res := newResult()
	var fns []*ssa.Function
	for _, n := range names {
		if only != "" && n != only {
			continue
		}
		f := eng.pkg.Func(n)
		if f == nil {
			logf("no function %s", n)
			return 2
		}
		fns = append(fns, f)
	}
	end := start.Add(time.Duration(budget) * time.Second)
	// first every harness for a while, then the unfinished ones to the end of the budget
	cross := os.Getenv("VERIF_CROSS") != "" || thorough && os.Getenv("VERIF_CROSS") != "0"
	var exs, open []*Explorer
	for _, f := range fns {
		exs = append(exs, newExplorer(eng, f, onCand))
	}
	turn := func(l []*Explorer, most time.Duration) {
		open = nil
		for i, ex := range l {
			remain := time.Until(end)
			if remain < 2*time.Second {
				remain = 2 * time.Second
			}
			share := remain
			if k := len(l) - i; k > 1 {
				share = remain * 2 / time.Duration(k+1)
			}
			if most > 0 && share > most {
				share = most
			}
			ex.run(nw, time.Now().Add(share), cross, res)
			if violation != nil {
				return
			}
			if len(ex.queue) > 0 {
				open = append(open, ex)
			}
		}
	}
	turn(exs, 12*time.Second)
	for n := 0; n < 8 && len(open) > 0 && violation == nil && time.Until(end) > 0; n++ {
		turn(open, 0)
	}
	for _, ex := range exs {
		ex.finish(res)
	}
	if prof {
		for _, s := range topN(res.Forks, 25) {
			logf("fork %s", s)
		}
	}
	exploreS := time.Since(start).Seconds()

	// differential validation of the encoding on sampled passing paths
	validated, mismatched := 0, 0
	var mism []string
	var sampleOut []interface{}
	if violation == nil && !noreplay {
		var wg sync.WaitGroup
		sem := make(chan bool, 4)
		maxS := 24
		if thorough {
			maxS = 96
		}
		ss := spread(res.Samples, maxS)
		for _, s := range ss {
			s := s
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				r, err := rp.Run(s, thorough)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					mismatched++
					mism = append(mism, err.Error())
					return
				}
				if v := r.violated(); v != "" {
					isKnown := false
					for _, k := range known {
						if k.Harness == s.Harness && k.Label == v {
							knownHit[v] = k.What
							isKnown = true
						}
					}
					if !isKnown && violation == nil {
						s.Label = v
						s.Msg = "found by native validation of a sampled path: " + v
						violation = s
					}
					return
				}
				if d := diffSample(s, r); d != "" {
					mismatched++
					j, _ := json.Marshal(s.Inputs)
					mism = append(mism, s.Harness+": "+d+" inputs "+string(j))
					return
				}
				validated++
			}()
		}
		wg.Wait()
		for i, s := range ss {
			if i >= 4 {
				break
			}
			sampleOut = append(sampleOut, map[string]interface{}{"harness": s.Harness, "inputs": trimInputs(s.Inputs), "covers": s.Covers})
		}
	}

	// vacuity: every declared cover point of the explored harnesses must have been reached
	var uncovered []string
	if violation == nil {
		for _, f := range fns {
			for _, c := range declaredCovers(f) {
				if res.Covers[f.Name()+":"+c] == 0 {
					uncovered = append(uncovered, f.Name()+":"+c)
				}
			}
		}
	}
	incon := 0
	for _, n := range res.Incon {
		incon += n
	}
	nspur := 0
	for _, n := range spurious {
		nspur += n
	}
	exhaustive := res.Left == 0 && res.TimedOut == 0 && incon == 0 && res.UnknownPaths == 0 && nspur == 0
	for _, s := range topN(res.Incon, 8) {
		logf("inconclusive: %s", s)
	}
	for k, n := range spurious {
		logf("spurious: %d× %s %s", n, k, spuriousMsg[k])
	}
	for _, m := range mism {
		logf("validation mismatch: %s", m)
	}
	for _, u := range uncovered {
		logf("cover point not reached: %s", u)
	}
	if rp.err != nil {
		<-rp.ready
		logf("replay: %v", rp.err)
	}
	if !exhaustive {
		logf("reduced bound: %d prefixes left, %d paths cut by time, %d inconclusive paths, %d with unknown answers, %d unreproduced candidates", res.Left, res.TimedOut, incon, res.UnknownPaths, nspur)
	}
	meta := harnessMeta(filepath.Join(verif, "harness", pkg))
	var fnList []string
	for k := range res.Fns {
		fnList = append(fnList, k)
	}
	sort.Strings(fnList)
	var modList []string
	for k := range res.Models {
		if !strings.Contains(k, "harness/sym.") {
			modList = append(modList, k)
		}
	}
	sort.Strings(modList)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if violation != nil {
		viol = 1
	}
	if sampleOut == nil && violation != nil {
		sampleOut = append(sampleOut, violation)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"technique":                     "symbolic execution of the go/ssa form of the real code, every branch and assertion decided by z3 (cvc5 as fallback/cross-check)",
			"states":                        res.Paths,
			"transitions":                   res.Branches,
			"instructions_encoded":          res.Instrs,
			"longest_path_instructions":     res.MaxSteps,
			"paths_completed":               res.Completed,
			"paths_ended":                   res.Ended,
			"assertions_evaluated":          res.Asserts,
			"assertions_proved_by_solver":   res.Proved,
			"assertions_folded_to_true":     res.Trivial,
			"queries":                       map[string]int{"total": res.Solver.Queries, "sat": res.Solver.Sat, "unsat": res.Solver.Unsat, "unknown": res.Solver.Unknown, "cvc5_fallback": res.Solver.Fallback, "cvc5_cross_checked": res.Solver.CrossChecked, "cross_disagreements": res.Solver.CrossDiff},
			"solver_time_s":                 round2(res.Solver.Time.Seconds()),
			"functions_encoded":             fnList,
			"modelled_functions":            modList,
			"cover_points":                  res.Covers,
			"cover_points_missed":           uncovered,
			"bounds":                        meta["bounds"],
			"harnesses":                     res.PerHarness,
			"exhaustive":                    exhaustive,
			"inconclusive":                  topN(res.Incon, 20),
			"unreproduced_candidates":       nspur,
			"unexplored_prefixes":           res.Left,
			"traces_validated_against_impl": validated,
			"validation_mismatches":         mism,
			"native_replays":                rp.runs,
			"samples":                       sampleOut,
			"load_s":                        round2(loadS),
			"explore_s":                     round2(exploreS),
			"replay_build_s":                round2(rp.buildS),
		},
		"assumptions": meta["assumptions"],
		"wall_s":      round2(time.Since(start).Seconds()),
		"violations":  viol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), j, 0644); err != nil {
		logf("evidence: %v", err)
	}
	for l, what := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, what, l)
	}
	fmt.Printf("%s %s: %d paths (%d completed), %d solver queries (%d sat, %d unsat, %d unknown) in %.1fs, %d assertions proved, %d folded, %d sampled paths validated natively, %d functions of the repository encoded, exhaustive within bounds: %v, %.1fs\n",
		prop, tier, res.Paths, res.Completed, res.Solver.Queries, res.Solver.Sat, res.Solver.Unsat, res.Solver.Unknown, res.Solver.Time.Seconds(), res.Proved, res.Trivial, validated, len(fnList), exhaustive, time.Since(start).Seconds())
	if violation != nil {
		os.MkdirAll(filepath.Join(verif, "replay"), 0755)
		f := filepath.Join(verif, "replay", prop+".json")
		j, _ := json.MarshalIndent(violation, "", " ")
		os.WriteFile(f, j, 0644)
		fmt.Printf("violated: harness %s, assertion %q %s\n", violation.Harness, violation.Label, violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		return 1
	}
	return 0
}

func (r *NativeResult) violated() string {
	if len(r.Failed) > 0 {
		return r.Failed[0]
	}
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	return ""
}

func spread(s []*Candidate, n int) []*Candidate {
	if len(s) <= n {
		return s
	}
	var o []*Candidate
	for i := 0; i < n; i++ {
		o = append(o, s[i*len(s)/n])
	}
	return o
}

func diffSample(s *Candidate, r *NativeResult) string {
	if r.Assume != "" {
		return "assumption failed natively: " + r.Assume
	}
	a, b := map[string]bool{}, map[string]bool{}
	for _, c := range s.Covers {
		a[c] = true
	}
	for _, c := range r.Covers {
		b[c] = true
	}
	for c := range a {
		if !b[c] {
			return "cover " + c + " not reached natively"
		}
	}
	for c := range b {
		if !a[c] {
			return "cover " + c + " reached only natively"
		}
	}
	for k, v := range s.Obs {
		if r.Obs[k] != v {
			return fmt.Sprintf("observation %s: encoded %s, native %s", k, v, r.Obs[k])
		}
	}
	return ""
}

func trimInputs(m map[string]interface{}) map[string]interface{} {
	o := map[string]interface{}{}
	n := 0
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n++
		if n > 24 {
			break
		}
		v := m[k]
		if s, ok := v.(string); ok && len(s) > 80 {
			v = s[:80] + "…"
		}
		o[k] = v
	}
	return o
}

func declaredCovers(f *ssa.Function) []string {
	seen := map[string]bool{}
	var walk func(f *ssa.Function, d int)
	vis := map[*ssa.Function]bool{}
	walk = func(f *ssa.Function, d int) {
		if vis[f] || d > 6 {
			return
		}
		vis[f] = true
		if f.Blocks == nil && f.Pkg != nil {
			f.Pkg.Build()
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.String() == harnessMod+"/sym.Cover" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						seen[constValue(k).(string)] = true
					}
				} else if g.Pkg == f.Pkg || g.Pkg == nil {
					walk(g, d+1)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a, d+1)
		}
	}
	walk(f, 0)
	var o []string
	for k := range seen {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// harnessMeta reads "// bound: ..." and "// assume: ..." lines of the harness package.
func harnessMeta(dir string) map[string][]string {
	m := map[string][]string{"bounds": {}, "assumptions": {}}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "// bound: ") {
				m["bounds"] = append(m["bounds"], strings.TrimPrefix(l, "// bound: "))
			}
			if strings.HasPrefix(l, "// assume: ") {
				m["assumptions"] = append(m["assumptions"], strings.TrimPrefix(l, "// assume: "))
			}
		}
	}
	return m
}

func knownFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var all []finding
	json.Unmarshal(b, &all)
	var o []finding
	for _, f := range all {
		if f.Property == prop && f.Status == "known" {
			o = append(o, f)
		}
	}
	return o
}

package gv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/jumboframes/armorigo/log"
	"pgregory.net/rapid"
)

// ---- shard: generate, execute, shrink --------------------------------------

type failure struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Fails    []string        `json:"fails"`
	Crash    string          `json:"crash,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Original json.RawMessage `json:"original_plan,omitempty"`
	Plan     json.RawMessage `json:"plan"`
	Shrinks  int             `json:"failing_attempts"`
}

type shardResult struct {
	Evals      int               `json:"evals"`
	Hashes     []string          `json:"hashes"` // distinct non-trivial plans
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Failure    *failure          `json:"failure"`
	HarnessErr string            `json:"harness_err"`
	Leaks      int               `json:"leaks"`
	Complete   bool              `json:"complete"`
	Seconds    float64           `json:"seconds"`
}

func runShard(t *testing.T) {
	log.SetLevel(log.LevelFatal)
	p := props[os.Getenv("GV_PROP")]
	tier := os.Getenv("GV_TIER")
	seed, _ := strconv.ParseUint(os.Getenv("GV_SEED"), 10, 64)
	shard, _ := strconv.Atoi(os.Getenv("GV_SHARD"))
	budget, _ := strconv.ParseFloat(os.Getenv("GV_BUDGET"), 64)
	checks, _ := strconv.Atoi(os.Getenv("GV_CHECKS"))
	thorough := tier == "thorough"

	procs := []int{1, 2, 4, 2, 3, 1, 4, 2}[shard%8]
	ex := &executor{procs: procs, t: t}
	defer ex.stop()

	res := &shardResult{Labels: map[string]int{}}
	hashes := map[string]bool{}
	begin := time.Now()
	var failedAt time.Time
	var best *failure

	write := func() {
		for h := range hashes {
			res.Hashes = append(res.Hashes, h)
		}
		sort.Strings(res.Hashes)
		res.Failure = best
		res.Seconds = time.Since(begin).Seconds()
		if err := os.WriteFile(os.Getenv("GV_OUT"), mustJSON(res), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
		}
	}
	defer write()

	shardSeed := seed*1000003 + uint64(shard)*7919 + 1
	if shardSeed == 0 {
		shardSeed = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(shardSeed, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	shrinkBudget := 20 * time.Second
	if thorough {
		shrinkBudget = 60 * time.Second
	}
	flag.Set("rapid.shrinktime", shrinkBudget.String())

	ok := t.Run("gen", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if res.HarnessErr != "" {
				return
			}
			if best == nil && time.Since(begin).Seconds() > budget {
				return
			}
			if best != nil && time.Since(failedAt) > shrinkBudget {
				return
			}
			plan := mustJSON(p.Gen(rt, thorough))
			o := ex.Exec(p, plan)
			if o.HarnessErr != "" {
				res.HarnessErr = o.HarnessErr + "\nplan: " + trunc(string(plan), 4000)
				return
			}
			if best == nil {
				res.Evals++
				for k, v := range o.Labels {
					res.Labels[k] += v
				}
				if o.Leak {
					res.Leaks++
				}
				if o.NonTriv {
					h := planHash(plan)
					if !hashes[h] {
						hashes[h] = true
						if len(res.Samples) < 3 && len(plan) < 3000 {
							res.Samples = append(res.Samples, plan)
						}
					}
				}
			}
			if len(o.Fails) > 0 {
				if best == nil {
					failedAt = time.Now()
					best = &failure{Property: p.ID, Seed: seed, Tier: tier, Original: plan}
					best.Plan = plan
					best.Fails, best.Crash, best.Trace = o.Fails, o.Crash, o.Trace
					// an early copy, should shrinking come to grief
					write()
					res.Hashes = nil
				}
				best.Shrinks++
				if len(plan) <= len(best.Plan) {
					best.Plan = plan
					best.Fails, best.Crash, best.Trace = o.Fails, o.Crash, o.Trace
				}
				rt.Fatalf("%s", o.Fails[0])
			}
		})
	})
	_ = ok
	res.Complete = true
}

// ---- driver -----------------------------------------------------------------

type knownFinding struct {
	Prop, Plan, What string
}

func readKnown(dir, prop string) []knownFinding {
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		fields := strings.SplitN(strings.TrimPrefix(line, "known: "), " ", 3)
		if len(fields) < 3 || fields[0] != "property="+prop || !strings.HasPrefix(fields[1], "plan=") {
			continue
		}
		out = append(out, knownFinding{prop, strings.TrimPrefix(fields[1], "plan="), fields[2]})
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("GV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// runDrive is the check: exit codes 0 (held), 1 (violation), 3 (harness error).
func runDrive(t *testing.T) int {
	id := os.Getenv("GV_PROP")
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	begin := time.Now()
	dir := verifDir()
	scratch, err := os.MkdirTemp("", "gv-"+id+"-")
	if err != nil {
		fmt.Println("scratch:", err)
		return 3
	}
	defer os.RemoveAll(scratch)

	checks, budget := p.Quick, p.QuickS
	if budget == 0 {
		budget = 30
	}
	if tier == "thorough" {
		checks, budget = p.Thorough, p.ThoroughS
		if budget == 0 {
			budget = 400
		}
	}
	if s := os.Getenv("GV_BUDGET_S"); s != "" {
		budget, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("GV_CASES"); s != "" {
		checks, _ = strconv.Atoi(s)
	}
	nshards := 8
	if n := runtime.NumCPU(); n < nshards {
		nshards = n
	}
	if s := os.Getenv("GV_SHARDS"); s != "" {
		nshards, _ = strconv.Atoi(s)
	}

	// replay tier: saved regression plans, then the listed known findings
	ex := &executor{procs: 4, t: t}
	defer ex.stop()
	regress, _ := filepath.Glob(filepath.Join(dir, "regress", id, "*.json"))
	sort.Strings(regress)
	evals, replayed := 0, 0
	labels := map[string]int{}
	report := func(f *failure) int {
		rdir := filepath.Join(dir, "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-seed%d-%s.json", id, tier, seed, planHash(f.Plan)))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0o644)
		for _, s := range f.Fails {
			fmt.Println("  " + s)
		}
		if f.Crash != "" {
			fmt.Println(trunc(f.Crash, 3000))
		}
		for _, s := range f.Trace {
			fmt.Println("    " + s)
		}
		fmt.Println("  plan: " + trunc(string(f.Plan), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	writeEvidence := func(evals int, hashes map[string]bool, samples []json.RawMessage, violations, shards int, extra map[string]any) {
		lv := p.Level
		if lv == "" {
			lv = "exploration"
		}
		cov := map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": p.Rule,
			"samples": samples, "labels": labels, "regression_plans_replayed": replayed, "shards": shards,
		}
		for k, v := range extra {
			cov[k] = v
		}
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
			"assumptions": p.Assumptions, "wall_s": time.Since(begin).Seconds(), "violations": violations,
		}
		if p.Assumptions == nil {
			delete(ev, "assumptions")
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
		os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	for _, path := range regress {
		plan, err := loadPlan(path)
		if err != nil {
			fmt.Println("regress:", path, err)
			return 3
		}
		reps := 3
		if p.InShard {
			reps = 1
		}
		for i := 0; i < reps; i++ {
			o := ex.Exec(p, plan)
			evals++
			replayed++
			if o.HarnessErr != "" {
				fmt.Println("harness error:", o.HarnessErr)
				return 3
			}
			for k, v := range o.Labels {
				labels[k] += v
			}
			if len(o.Fails) > 0 {
				fmt.Println("regression plan fails again:", path)
				writeEvidence(evals, map[string]bool{}, []json.RawMessage{plan}, 1, 0, nil)
				return report(&failure{Property: id, Seed: seed, Tier: tier, Fails: o.Fails, Crash: o.Crash, Trace: o.Trace, Plan: plan})
			}
		}
	}
	known := 0
	for _, k := range readKnown(dir, id) {
		plan, err := loadPlan(filepath.Join(dir, k.Plan))
		if err != nil {
			fmt.Println("known finding:", k.Plan, err)
			return 3
		}
		still := false
		for i := 0; i < 5 && !still; i++ {
			o := ex.Exec(p, plan)
			if o.HarnessErr != "" {
				fmt.Println("harness error:", o.HarnessErr)
				return 3
			}
			still = len(o.Fails) > 0
		}
		if still {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			known++
		} else {
			fmt.Printf("note: the known finding %s no longer fails\n", k.Plan)
		}
	}
	ex.stop()

	type shardRun struct {
		cmd *exec.Cmd
		out string
		res *shardResult
		log string
	}
	runs := make([]*shardRun, nshards)
	exe, _ := os.Executable()
	var wg sync.WaitGroup
	var mu sync.Mutex
	stopped := false
	for i := range runs {
		r := &shardRun{out: filepath.Join(scratch, fmt.Sprintf("out%d.json", i)), log: filepath.Join(scratch, fmt.Sprintf("log%d", i))}
		runs[i] = r
		r.cmd = exec.Command(exe, "-test.run=^TestShard$", "-test.timeout=0")
		r.cmd.Dir = scratch
		r.cmd.Env = append(os.Environ(), "GV_MODE=shard", "GV_PROP="+id, "GV_TIER="+tier, "GV_SEED="+strconv.FormatUint(seed, 10),
			"GV_SHARD="+strconv.Itoa(i), "GV_BUDGET="+strconv.Itoa(budget), "GV_CHECKS="+strconv.Itoa(checks), "GV_OUT="+r.out)
		lf, err := os.Create(r.log)
		if err != nil {
			fmt.Println(err)
			return 3
		}
		r.cmd.Stdout, r.cmd.Stderr = lf, lf
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := func() error { runtime.LockOSThread(); return r.cmd.Start() }(); err != nil {
			fmt.Println(err)
			return 3
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.cmd.Wait()
			lf.Close()
			b, err := os.ReadFile(r.out)
			if err != nil {
				return
			}
			res := &shardResult{}
			if json.Unmarshal(b, res) != nil {
				return
			}
			r.res = res
			if res.Failure != nil {
				// enough: give the others a moment, then stop them
				mu.Lock()
				first := !stopped
				stopped = true
				mu.Unlock()
				if first {
					go func() {
						time.Sleep(2 * time.Second)
						for _, o := range runs {
							if o != r && o.cmd != nil && o.cmd.Process != nil {
								o.cmd.Process.Kill()
							}
						}
					}()
				}
			}
		}()
	}
	wg.Wait()

	hashes := map[string]bool{}
	var samples []json.RawMessage
	var fail *failure
	herr := ""
	leaks := 0
	shards := 0
	for i, r := range runs {
		if r.res == nil {
			if !stopped {
				b, _ := os.ReadFile(r.log)
				herr = fmt.Sprintf("shard %d ended without a result: %s", i, trunc(string(b), 4000))
			}
			continue
		}
		shards++
		evals += r.res.Evals
		leaks += r.res.Leaks
		for _, h := range r.res.Hashes {
			hashes[h] = true
		}
		for k, v := range r.res.Labels {
			labels[k] += v
		}
		if len(samples) < 6 {
			n := 2
			if len(r.res.Samples) < n {
				n = len(r.res.Samples)
			}
			samples = append(samples, r.res.Samples[:n]...)
		}
		if r.res.HarnessErr != "" {
			herr = r.res.HarnessErr
		}
		if f := r.res.Failure; f != nil && (fail == nil || len(f.Plan) < len(fail.Plan)) {
			fail = f
		}
	}
	nviol := 0
	if fail != nil {
		nviol = 1
	}
	writeEvidence(evals, hashes, samples, nviol, shards, map[string]any{"bubbles_with_leftover_goroutines": leaks, "known_findings_shown": known})
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d regression replays, %.1fs\n", id, tier, seed, evals, len(hashes), replayed, time.Since(begin).Seconds())
	if os.Getenv("GV_SHOW") != "" {
		b, _ := json.MarshalIndent(labels, "", " ")
		fmt.Println(string(b))
	}
	if fail != nil {
		return report(fail)
	}
	if herr != "" {
		fmt.Println("harness error:", herr)
		return 3
	}
	if evals == 0 || len(hashes) == 0 {
		fmt.Println("harness error: nothing was explored")
		return 3
	}
	return 0
}

func loadPlan(path string) (json.RawMessage, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	if f.Plan == nil {
		return nil, fmt.Errorf("no plan in %s", path)
	}
	// compact
	var v any
	d := json.NewDecoder(strings.NewReader(string(f.Plan)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return json.Marshal(v)
}

// runReplay executes a saved plan several times.
func runReplay(t *testing.T) int {
	path := os.Getenv("GV_REPLAY")
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 3
	}
	p := props[f.Property]
	if p == nil {
		fmt.Println("unknown property", f.Property)
		return 3
	}
	plan, err := loadPlan(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	n := 10
	if s := os.Getenv("GV_TIMES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	bad := 0
	for i := 0; i < n; i++ {
		ex := &executor{procs: 1 + i%4, t: t}
		stop := os.Getenv("GV_STOP") != "" // at the first violation, whose log is wanted
		if stop && os.Getenv("GV_LOG") != "" {
			os.Remove(os.Getenv("GV_LOG"))
		}
		o := ex.Exec(p, plan)
		ex.stop()
		if stop && len(o.Fails) > 0 {
			n = i
		}
		if o.HarnessErr != "" {
			fmt.Println("harness error:", o.HarnessErr)
			return 3
		}
		if i == 0 {
			fmt.Println("labels:", string(mustJSON(o.Labels)), "nontrivial:", o.NonTriv, "leak:", o.Leak)
		}
		if len(o.Fails) > 0 {
			bad++
			if bad == 1 {
				for _, s := range o.Fails {
					fmt.Println("  " + s)
				}
				fmt.Println(o.Crash)
				for _, s := range o.Trace {
					fmt.Println("    " + s)
				}
			}
		}
	}
	fmt.Printf("%d of %d executions violate %s\n", bad, n, f.Property)
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}

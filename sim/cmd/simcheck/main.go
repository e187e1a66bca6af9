// Command simcheck builds the simulator from the current tree of the
// repository and runs the check of one property.
//
//	simcheck [-n scenarios] [-from first] [-replay file] PROPERTY
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type job struct {
	Prop    string
	Seed    uint64
	From    int
	To      int
	Step    int
	Out     string
	Replay  string
	Dir     string
	Seconds int
	Hashes  bool
	Dump    string
	Msg     string
}

type found struct {
	Sig, Msg, Path string
	Index          int
}

type ev struct {
	Proc, Task int
	Op         string
	Path       string
	N          int
	Err        string
	Step       int64
}

type result struct {
	Scenarios  int
	Nontrivial int
	Distinct   []uint64
	Skipped    int
	Hashes     map[int]uint64
	Found      []found
	Runs       int64
	Steps      int64
	Events     int64
	Switches   int64
	SimNanos   int64
	Fired      map[string]int
	Crashes    map[string]int
	Traces     []uint64
	Scheds     []uint64
	Kinds      map[string]int
	Samples    []string
	Sites      []int
	Replayed   *struct {
		Prop, Sig, Msg string
		Trace          []ev
	}
	Same    bool
	Slowest float64
	SlowIdx int
	Died    string `json:"-"`
	DiedAt  int    `json:"-"`
	Rule    string
}

type known struct {
	Status   string // known, fixed
	Property string
	Sig      string
	Match    string // regular expression on the message
	Text     string
	Commit   string
}

// count is how many scenarios a check runs, quick and thorough.
var count = map[string][2]int{
	"P01": {50000, 3000000},
	"P02": {60000, 3600000},
	"P03": {40000, 2400000},
	"P04": {12000, 720000},
	"P05": {20000, 1200000},
	"P06": {8000, 480000},
	"P07": {14000, 840000},
	"P08": {50000, 3000000},
	"P09": {50000, 3000000},
	"P10": {40000, 2400000},
	"P11": {16000, 960000},
	"P12": {25000, 1500000},
	"P13": {200000, 12000000},
	"P14": {50000, 3000000},
	"P15": {35000, 2100000},
}

var work string

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	if work != "" && os.Getenv("SIM_KEEP") == "" {
		os.RemoveAll(work)
	}
	os.Exit(2)
}

func main() {
	n := flag.Int("n", 0, "scenarios")
	from := flag.Int("from", 0, "first scenario")
	replay := flag.String("replay", "", "replay file")
	workers := flag.Int("w", runtime.NumCPU(), "workers")
	setup := flag.Bool("setup", false, "only build")
	verbose := flag.Bool("v", false, "show all violations")
	flag.Parse()
	start := time.Now()
	verif, err := filepath.Abs(".")
	if err != nil {
		die("%v", err)
	}
	if _, err := os.Stat(filepath.Join(verif, "sim", "go.mod")); err != nil {
		die("run from the verification folder: %v", err)
	}
	prop := flag.Arg(0)
	seed, err := strconv.ParseUint(or(os.Getenv("VERIF_SEED"), "1"), 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	tier := or(os.Getenv("VERIF_TIER"), "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	if !*setup && *replay == "" && count[prop][0] == 0 {
		die("no check for %q", prop)
	}
	repo := or(os.Getenv("XGEN_REPO"), "/repo")
	work, err = os.MkdirTemp("", "xgensim")
	if err != nil {
		die("%v", err)
	}
	sites := build(verif, repo)
	built := time.Since(start)
	if *setup {
		os.RemoveAll(work)
		fmt.Printf("built in %.1fs\n", built.Seconds())
		return
	}
	if *replay != "" {
		doReplay(*replay)
		return
	}
	total := count[prop][0]
	limit := 560
	if tier == "thorough" {
		total = count[prop][1]
		limit = 3000
	}
	if *n > 0 {
		total = *n
	}
	w := *workers
	dir := filepath.Join(verif, "replays")
	var rs []*result
	var mu sync.Mutex
	var wg sync.WaitGroup
	t0 := time.Now()
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			j := job{Prop: prop, Seed: seed, From: *from + i, To: *from + total, Step: w, Dir: dir, Seconds: limit, Hashes: true}
			r := run(fmt.Sprint("w", i), j, 2)
			if r.Died != "" {
				if !ends[prop] {
					die("worker %d: scenario %d: %s", i, r.DiedAt, r.Died)
				}
				f := found{"fatal", "the process ends: " + r.Died, filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, r.DiedAt)), r.DiedAt}
				run(fmt.Sprint("d", i), job{Prop: prop, Seed: seed, From: r.DiedAt, Dump: f.Path, Msg: f.Msg}, 1)
				j.To = r.DiedAt // what came before, again
				if r = run(fmt.Sprint("w", i), j, 2); r.Died != "" {
					r = &result{}
				}
				r.Found = append(r.Found, f)
			}
			mu.Lock()
			rs = append(rs, r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	searched := time.Since(t0)
	sum := merge(rs)
	// one seed is one execution: a part again, in one other process
	again := total / 40
	if again > 120 {
		again = 120
	}
	if again < 1 {
		again = 1
	}
	det := run("again", job{Prop: prop, Seed: seed, From: *from, To: *from + again, Step: 1, Dir: filepath.Join(work, "again"), Seconds: 120, Hashes: true}, runtime.NumCPU())
	same, differ := 0, -1
	for k, h := range det.Hashes {
		if g, ok := sum.Hashes[k]; ok {
			if g == h {
				same++
			} else if differ < 0 || k < differ {
				differ = k
			}
		}
	}
	ks := readKnown(filepath.Join(verif, "known-findings.jsonl"), prop)
	hit := map[int]found{}
	var bad []found
	sort.Slice(sum.Found, func(i, j int) bool { return sum.Found[i].Index < sum.Found[j].Index })
	for _, f := range sum.Found {
		isKnown := false
		for i, k := range ks {
			if k.Status == "known" && (k.Sig == "" || k.Sig == f.Sig) && regexp.MustCompile(k.Match).MatchString(f.Msg) {
				isKnown = true
				hit[i] = f
			}
		}
		if !isKnown {
			bad = append(bad, f)
		}
	}
	for i, k := range ks {
		if k.Status == "known" {
			s := ""
			if f, ok := hit[i]; ok {
				s = fmt.Sprintf(" (seen in scenario %d)", f.Index)
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", prop, k.Text, s)
		}
	}
	reported := ""
	unconfirmed := 0
	var confirmed bool
	for _, f := range bad {
		if f.Path == "" {
			continue
		}
		r := run("replay", job{Replay: f.Path}, 2)
		for i := 0; i < 5 && r.Died == "" && (r.Replayed == nil || r.Replayed.Sig == ""); i++ {
			// the code draws on something the simulator does not control
			r = run("replay", job{Replay: f.Path}, 2)
		}
		if r.Died != "" && f.Sig == "fatal" || r.Same || r.Replayed != nil && r.Replayed.Sig == f.Sig {
			confirmed = true
			same := r.Same || r.Died != ""
			if reported == "" {
				reported = f.Path
				fmt.Printf("violation in scenario %d (%s): %s\n", f.Index, f.Sig, f.Msg)
				fmt.Printf("replayed exactly in a fresh process: %v\n", same)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f.Path)
				if !*verbose {
					break
				}
			} else {
				fmt.Printf("also in scenario %d (%s): %s\n  %s\n", f.Index, f.Sig, f.Msg, f.Path)
			}
		} else {
			unconfirmed++
		}
	}
	fmt.Printf("%s %s seed %d: %d scenarios (%d non-trivial), %d executions, %d statements, %d violations, %d/%d repeated identically, built in %.1fs, searched in %.1fs, slowest %.1fs (#%d), skipped %d\n", prop, tier, seed, sum.Scenarios, sum.Nontrivial, sum.Runs, sum.Steps, len(bad), same, again, built.Seconds(), searched.Seconds(), sum.Slowest, sum.SlowIdx, sum.Skipped)
	writeEvidence(verif, prop, tier, seed, sum, sites, searched, time.Since(start), len(bad), same, again)
	os.RemoveAll(work)
	switch {
	case confirmed:
		os.Exit(1)
	case len(bad) > 0:
		fmt.Fprintf(os.Stderr, "simcheck: %d violations did not reproduce from their replay files: %s\n", unconfirmed, bad[0].Msg)
		os.Exit(2)
	case differ >= 0:
		fmt.Fprintf(os.Stderr, "simcheck: warning: scenario %d took another course when repeated\n", differ)
	}
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func env(extra ...string) []string {
	e := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" && os.Getenv("GOCACHE") == "" {
		e = append(e, "HOME=/root")
	}
	return append(e, extra...)
}

func cmd(dir string, name string, args ...string) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env()
	out, err := c.CombinedOutput()
	if err != nil {
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
}

// build instruments the tree and links it with the simulator; it returns the
// instrumented statements.
func build(verif, repo string) []string {
	src, out := filepath.Join(work, "src"), filepath.Join(work, "xgen")
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || rel == "test" || d.Name() == "testdata" || d.Name() == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") || rel == "go.mod" || rel == "go.sum" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			q := filepath.Join(src, rel)
			if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
				return err
			}
			return os.WriteFile(q, b, 0o644)
		}
		return nil
	})
	if err != nil {
		die("copying %s: %v", repo, err)
	}
	sim := filepath.Join(verif, "sim")
	cmd(sim, "go", "build", "-o", filepath.Join(work, "instrument"), "./cmd/instrument")
	cmd(work, filepath.Join(work, "instrument"), "-src", src, "-out", out)
	mod := fmt.Sprintf("module verifsim\n\ngo 1.27\n\nrequire (\n\tgithub.com/xuri/xgen v0.0.0\n\tgolang.org/x/net v0.7.0\n\tgolang.org/x/text v0.7.0\n)\n\nreplace github.com/xuri/xgen => %s\n", out)
	if err := os.WriteFile(filepath.Join(work, "sim.mod"), []byte(mod), 0o644); err != nil {
		die("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(work, "sim.sum"), sum, 0o644); err != nil {
		die("%v", err)
	}
	cmd(sim, "go", "test", "-c", "-vet=off", "-modfile="+filepath.Join(work, "sim.mod"), "-o", filepath.Join(work, "engine"), "./engine")
	var sites []string
	b, err := os.ReadFile(filepath.Join(out, "sites.json"))
	if err == nil {
		var at []struct {
			File string
			Line int
		}
		err = json.Unmarshal(b, &at)
		for _, a := range at {
			sites = append(sites, fmt.Sprintf("%s:%d", a.File, a.Line))
		}
	}
	if err != nil {
		die("%v", err)
	}
	return sites
}

// fatal is how the Go runtime ends a process that can not go on.
var fatal = regexp.MustCompile(`(?m)^(fatal error: .*|runtime: goroutine stack exceeds .*|runtime: out of memory.*)$`)

// ends lists the properties that a fatal end of the process violates.
var ends = map[string]bool{"P02": true, "P03": true, "P06": true, "P07": true, "P08": true, "P10": true, "P12": true, "P13": true}

func run(name string, j job, procs int) *result {
	j.Out = filepath.Join(work, name+".out.json")
	jf := filepath.Join(work, name+".job.json")
	b, _ := json.Marshal(j)
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		die("%v", err)
	}
	os.Remove(j.Out)
	c := exec.Command(filepath.Join(work, "engine"), "-test.run=^TestSim$", "-test.timeout=3h")
	c.Dir = work
	c.Env = env("SIM_JOB="+jf, fmt.Sprint("GOMAXPROCS=", procs), "GODEBUG=", "GOMEMLIMIT=3GiB")
	out, err := c.CombinedOutput()
	if m := fatal.Find(out); err != nil && (m != nil || c.ProcessState.ExitCode() < 0) {
		b, _ := os.ReadFile(j.Out + ".at")
		at, _ := strconv.Atoi(strings.TrimSpace(string(b)))
		if m == nil {
			m = []byte(err.Error())
		}
		return &result{Died: string(m), DiedAt: at}
	}
	if err != nil {
		s := string(out)
		if len(s) > 6000 {
			s = s[:3000] + "\n...\n" + s[len(s)-3000:]
		}
		die("worker %s: %v\n%s", name, err, s)
	}
	b, err = os.ReadFile(j.Out)
	if err != nil {
		die("worker %s: %v\n%s", name, err, out)
	}
	r := &result{}
	if err := json.Unmarshal(b, r); err != nil {
		die("worker %s: %v", name, err)
	}
	return r
}

func merge(rs []*result) *result {
	s := &result{Hashes: map[int]uint64{}, Fired: map[string]int{}, Crashes: map[string]int{}, Kinds: map[string]int{}}
	d, tr, sc, si := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	for _, r := range rs {
		s.Rule = r.Rule
		s.Scenarios += r.Scenarios
		s.Nontrivial += r.Nontrivial
		s.Skipped += r.Skipped
		s.Runs += r.Runs
		s.Steps += r.Steps
		s.Events += r.Events
		s.Switches += r.Switches
		s.SimNanos += r.SimNanos
		s.Found = append(s.Found, r.Found...)
		s.Samples = append(s.Samples, r.Samples...)
		for k, v := range r.Hashes {
			s.Hashes[k] = v
		}
		for k, v := range r.Fired {
			s.Fired[k] += v
		}
		for k, v := range r.Crashes {
			s.Crashes[k] += v
		}
		for k, v := range r.Kinds {
			s.Kinds[k] += v
		}
		for _, v := range r.Distinct {
			d[v] = true
		}
		for _, v := range r.Traces {
			tr[v] = true
		}
		for _, v := range r.Scheds {
			sc[v] = true
		}
		for _, v := range r.Sites {
			si[v] = true
		}
		if r.Slowest > s.Slowest {
			s.Slowest, s.SlowIdx = r.Slowest, r.SlowIdx
		}
	}
	s.Distinct = make([]uint64, len(d))
	s.Traces = make([]uint64, len(tr))
	s.Scheds = make([]uint64, len(sc))
	for k := range si {
		s.Sites = append(s.Sites, k)
	}
	sort.Ints(s.Sites)
	return s
}

func readKnown(p, prop string) []known {
	f, err := os.Open(p)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	in := bufio.NewScanner(f)
	in.Buffer(nil, 1<<20)
	for in.Scan() {
		if strings.TrimSpace(in.Text()) == "" {
			continue
		}
		var k known
		if err := json.Unmarshal(in.Bytes(), &k); err != nil {
			die("%s: %v", p, err)
		}
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func writeEvidence(verif, prop, tier string, seed uint64, s *result, sites []string, searched, wall time.Duration, bad, same, again int) {
	hours := searched.Hours()
	if len(s.Samples) > 4 {
		s.Samples = s.Samples[:4]
	}
	if len(s.Samples) == 0 {
		s.Samples = []string{"(no non-trivial scenario)"}
	}
	hit := map[int]bool{}
	for _, i := range s.Sites {
		hit[i] = true
	}
	var missed []string
	for i, n := range sites {
		if !hit[i] && len(missed) < 40 {
			missed = append(missed, n)
		}
	}
	cov := map[string]any{
		"evaluations":                    s.Runs,
		"distinct_nontrivial":            len(s.Distinct),
		"rule":                           s.Rule + "; evaluations counts simulated executions (reference runs included), distinct_nontrivial distinct histories of non-trivial scenarios",
		"samples":                        s.Samples,
		"scenarios":                      s.Scenarios,
		"scenarios_nontrivial":           s.Nontrivial,
		"scenarios_skipped_by_wall_time": s.Skipped,
		"scenario_kinds":                 s.Kinds,
		"seeds_per_hour":                 int(float64(s.Scenarios) / hours),
		"executions_per_hour":            int(float64(s.Runs) / hours),
		"simulated_seconds":              float64(s.SimNanos) / 1e9,
		"statements_executed":            s.Steps,
		"events":                         s.Events,
		"task_switches":                  s.Switches,
		"faults_fired":                   s.Fired,
		"crashes":                        s.Crashes,
		"distinct_histories":             len(s.Traces),
		"distinct_schedules":             len(s.Scheds),
		"measure":                        "a history is the sequence of file operations, outcomes and threads with paths numbered in order of appearance; a schedule is the sequence of switches",
		"repeated_identically":           fmt.Sprintf("%d of %d", same, again),
		"statements_reached":             fmt.Sprintf("%d of %d", len(s.Sites), len(sites)),
		"statements_not_reached":         missed,
		"real_code":                      "package xgen and cmd/xgen from the working tree, instrumented; Go's encoding/xml, go/format, reflect, regexp, x/net/html/charset and x/text unchanged",
		"simulated":                      "os, io/ioutil, path/filepath (disk), flag, fmt's standard streams, log, time, sync, math/rand, crypto/rand, goroutine scheduling, map order; net/http answers every request with an error",
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": bad,
		"assumptions": []string{
			"the simulated disk gives what POSIX promises and no more; a power loss keeps a prefix of the directory operations and any prefix of unsynced data",
			"threads switch at statement boundaries of the instrumented packages and at file operations; races are decided from happens-before, not from the switch points",
		},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func doReplay(p string) {
	p, _ = filepath.Abs(p)
	r := run("replay", job{Replay: p}, 2)
	if r.Died != "" {
		var h struct{ Prop string }
		b, _ := os.ReadFile(p)
		json.Unmarshal(b, &h)
		fmt.Printf("the process ends: %s\nVIOLATION property=%s replay=%s\n", r.Died, h.Prop, p)
		os.RemoveAll(work)
		os.Exit(1)
	}
	for _, e := range r.Replayed.Trace {
		fmt.Printf("%3d.%d step %-7d %-12s %s %d %s\n", e.Proc, e.Task, e.Step, e.Op, e.Path, e.N, e.Err)
	}
	if r.Replayed.Sig != "" {
		fmt.Printf("violation (%s): %s\nidentical to the recorded one: %v\nVIOLATION property=%s replay=%s\n", r.Replayed.Sig, r.Replayed.Msg, r.Same, r.Replayed.Prop, p)
	} else {
		fmt.Printf("the property holds in this scenario\n")
	}
	os.RemoveAll(work)
	if r.Replayed.Sig != "" {
		os.Exit(1)
	}
}

package engine

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"syscall"
	"testing"
	"time"

	"verifsim/rt"
)

// Job is what one worker does.
type Job struct {
	Prop    string
	Seed    uint64
	From    int
	To      int
	Step    int
	Out     string
	Replay  string // replay this file instead
	Dir     string // where replay files go
	Seconds int    // wall limit; scenarios beyond it are not run
	Hashes  bool
	Dump    string // write a replay file for scenario From instead
	Msg     string
}

// Replay is what a violation leaves behind.
type Replay struct {
	Prop, Sig, Msg string
	Index          int
	Hash           uint64
	Seed           uint64 `json:",omitempty"`
	Shrunk         string
	Scenario       *Scenario `json:",omitempty"`
	Trace          []rt.Ev
}

// Found is a violation in a result.
type Found struct {
	Sig, Msg, Path string
	Index          int
}

// Result is what a worker reports.
type Result struct {
	Scenarios  int
	Nontrivial int
	Distinct   []uint64
	Skipped    int
	Hashes     map[int]uint64
	Found      []Found
	Runs       int64
	Steps      int64
	Events     int64
	Switches   int64
	SimNanos   int64
	Fired      map[string]int
	Crashes    map[string]int
	Traces     []uint64
	Scheds     []uint64
	Kinds      map[string]int
	Samples    []string
	Sites      []int
	Replayed   *Replay
	Same       bool
	Slowest    float64
	SlowIdx    int
	Rule       string
}

type refuse struct{}

func (refuse) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, errors.New("simulated network: unreachable")
}

func seedOf(seed uint64, prop string, i int) uint64 {
	return rt.NewRng(seed*0x9e3779b97f4a7c15+uint64(i), prop).Uint64()
}

func make1(p *Prop, seed uint64) *Scenario {
	goldCache = map[uint64]*Gold{}
	sc := p.Gen(rt.NewRng(seed, "workload"), seed)
	sc.Seed = seed
	ar := rt.NewRng(seed, "ambient")
	if p.ID != "P06" && ar.OneIn(2) {
		sc.Cfg.Sched = ar.Uint64() | 1
	}
	for i := range sc.Vars {
		sc.Vars[i].Cfg.Sched = ar.Uint64() | 1
	}
	if p.ID != "P09" && ar.OneIn(8) {
		sc.Locked = true
	}
	return sc
}

func judge(p *Prop, sc *Scenario) (*Fail, uint64, uint64) {
	goldCache = map[uint64]*Gold{}
	runHash = 0
	nontrivial = false
	lastTrace = 0
	fl := p.Check(clone(sc))
	return fl, runHash, lastTrace
}

func TestSim(t *testing.T) {
	theT = t
	http.DefaultTransport = refuse{}
	b, err := os.ReadFile(os.Getenv("SIM_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	debug.SetMaxStack(256 << 20)
	if lim := (syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}); true {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim) // runaway allocation ends this process only
	}
	res := &Result{Hashes: map[int]uint64{}, Kinds: map[string]int{}}
	switch {
	case job.Replay != "":
		replay(t, &job, res)
	case job.Dump != "":
		dump(t, &job)
	default:
		work(&job, res)
	}
	res.Runs, res.Steps, res.Events, res.Switches, res.SimNanos = stats.Runs, stats.Steps, stats.Ops, stats.Switches, stats.SimNanos
	res.Fired, res.Crashes = stats.Fired, stats.Crashes
	for k := range stats.Traces {
		res.Traces = append(res.Traces, k)
	}
	for k := range stats.Scheds {
		res.Scheds = append(res.Scheds, k)
	}
	for i, n := range rt.SiteHits() {
		if n > 0 {
			res.Sites = append(res.Sites, i)
		}
	}
	b, err = json.Marshal(res)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(job.Out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func work(job *Job, res *Result) {
	p := props[job.Prop]
	res.Rule = p.Rule
	at, err := os.Create(job.Out + ".at")
	if err != nil {
		panic(err)
	}
	defer at.Close()
	start := time.Now()
	distinct := map[uint64]struct{}{}
	sigs := map[string]int{}
	for i := job.From; i < job.To; i += job.Step {
		if job.Seconds > 0 && time.Since(start) > time.Duration(job.Seconds)*time.Second {
			res.Skipped++
			continue
		}
		t0 := time.Now()
		at.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		runHash = 0
		sc := make1(p, seedOf(job.Seed, p.ID, i))
		h0 := runHash
		fl, h, th := judge(p, sc)
		h ^= h0 * 31
		res.Scenarios++
		res.Kinds[sc.Kind]++
		if job.Hashes {
			res.Hashes[i] = h
		}
		if nontrivial {
			res.Nontrivial++
			distinct[th^key(sc.Kind, sc.Files)] = struct{}{}
		}
		if len(res.Samples) < 1 && nontrivial && i > job.From+10*job.Step {
			res.Samples = append(res.Samples, describe(sc))
		}
		if d := time.Since(t0).Seconds(); d > res.Slowest {
			res.Slowest, res.SlowIdx = d, i
		}
		if fl == nil {
			continue
		}
		sigs[fl.Sig]++
		if sigs[fl.Sig] > 1 || len(res.Found) >= 3 {
			res.Found = append(res.Found, Found{fl.Sig, fl.Msg, "", i})
			if len(res.Found) >= 50 {
				break
			}
			continue
		}
		small, sf, tries := shrink(sc, fl, 20*time.Second)
		_, h, _ = judge(p, small)
		r := &Replay{Prop: p.ID, Sig: sf.Sig, Msg: sf.Msg, Index: i, Hash: h, Scenario: small, Shrunk: fmt.Sprintf("%d candidate reductions tried", tries), Trace: lastTr}
		if len(r.Trace) > 2000 {
			r.Trace = r.Trace[:2000]
		}
		name := filepath.Join(job.Dir, fmt.Sprintf("%s-%d-%d.json", p.ID, job.Seed, i))
		b, _ := json.MarshalIndent(r, "", " ")
		os.MkdirAll(job.Dir, 0o755)
		if err := os.WriteFile(name, b, 0o644); err != nil {
			panic(err)
		}
		res.Found = append(res.Found, Found{sf.Sig, sf.Msg, name, i})
	}
	for k := range distinct {
		res.Distinct = append(res.Distinct, k)
	}
	sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
}

// dump writes the replay file of a scenario that ends the process of the
// simulator: it is made again from its seed when replayed.
func dump(t *testing.T, job *Job) {
	r := &Replay{Prop: job.Prop, Sig: "fatal", Msg: job.Msg, Index: job.From, Seed: job.Seed, Shrunk: "not reduced: the scenario ends the process of the simulator"}
	b, _ := json.MarshalIndent(r, "", " ")
	os.MkdirAll(filepath.Dir(job.Dump), 0o755)
	if err := os.WriteFile(job.Dump, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func describe(sc *Scenario) string {
	s := fmt.Sprintf("seed %d, %s: %d files", sc.Seed, sc.Kind, len(sc.Files))
	for _, p := range sc.Procs {
		if p.Tasks == nil {
			s += fmt.Sprintf("; command %v", p.Args)
		} else {
			s += fmt.Sprintf("; host with calls %v", p.Tasks)
		}
	}
	for _, f := range sc.Cfg.Faults {
		s += fmt.Sprintf("; fault %+v", f)
	}
	for _, c := range sc.Cfg.Crashes {
		s += fmt.Sprintf("; crash %+v", c)
	}
	if len(sc.Cfg.Preempts) > 0 {
		s += fmt.Sprintf("; switches %v", sc.Cfg.Preempts)
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func replay(t *testing.T, job *Job, res *Result) {
	b, err := os.ReadFile(job.Replay)
	if err != nil {
		t.Fatal(err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	p := props[r.Prop]
	if r.Scenario == nil {
		r.Scenario = make1(p, seedOf(r.Seed, p.ID, r.Index))
	}
	fl, h, _ := judge(p, r.Scenario)
	res.Replayed = &Replay{Prop: r.Prop, Hash: h, Trace: lastTr}
	if fl != nil {
		res.Replayed.Sig, res.Replayed.Msg = fl.Sig, fl.Msg
	}
	res.Same = fl != nil && fl.Sig == r.Sig && fl.Msg == r.Msg && h == r.Hash
	if len(res.Replayed.Trace) > 2000 {
		res.Replayed.Trace = res.Replayed.Trace[:2000]
	}
}

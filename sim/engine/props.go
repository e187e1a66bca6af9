package engine

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verifsim/rt"
)

// badPkg is a package name that makes the generated Go source unfit to format.
const badPkg = "1x"

// libCalls turns a plan into library calls.
func (p *plan) call() Call {
	return Call{File: p.in, In: p.in, Out: p.out, Lang: p.lang, Pkg: p.pkg, Dir: p.dir}
}

func ending(o *Outcome, i int) *Fail {
	if b := bad(o.W.Procs[i]); b != "" {
		return failf("bad-end", "process %d: %s", i, b)
	}
	return nil
}

// successMeansGolden is the core of P01 and P02: a command that reports
// success left exactly what a fault-free run leaves.
func successMeansGolden(sc *Scenario) (o *Outcome, fl *Fail) {
	p := sc.Procs[0]
	g := golden(sc.Files, p)
	if !g.OK {
		return nil, nil
	}
	budget(sc, g.Steps, g.Ops)
	o = execute(sc)
	if hard(o.W) > 0 {
		nontrivial = true
	}
	if p.Tasks == nil {
		ok, text := o.CLI(0)
		if !ok {
			return o, nil
		}
		if d := diffOuts(g.Outs, inSnap(o.After[0])); d != "" {
			return o, failf("success-but-wrong", "exit status 0 after %s, but %s\n%s", fired(o.W), d, text)
		}
		if len(sc.Cfg.Faults) == 0 {
			if fl := tokensMissing(sc.Files, &p, inSnap(o.After[0])); fl != nil {
				return o, fl
			}
			if fl := depsMissing(sc.Files, &p, o.After[0]); fl != nil {
				return o, fl
			}
		}
		return o, nil
	}
	for ti, t := range o.Res[0] {
		for ci, r := range t {
			if !r.OK() {
				continue
			}
			cg := goldenCall(sc.Files, p.Cwd, p.Tasks[ti][ci])
			if d := diffOuts(cg.Outs, inMap(r.Outs)); cg.OK && d != "" {
				return o, failf("success-but-wrong", "the library reported no error after %s, but %s", fired(o.W), d)
			}
		}
	}
	return o, nil
}

func fired(w *rt.World) string {
	var out []string
	for _, e := range w.Trace {
		if e.Err != "" {
			out = append(out, fmt.Sprintf("%s %s: %s", e.Op, e.Path, e.Err))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	if len(out) == 0 {
		return "no failure"
	}
	return strings.Join(out, "; ")
}

func asHost(r *rt.Rng, p *plan) Proc {
	if r.OneIn(3) {
		return Proc{Cwd: cwd, Tasks: [][]Call{{p.call()}}}
	}
	return p.proc()
}

// ---- P01

func genP01(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.loose = true
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P01", Files: p.fs, Procs: []Proc{asHost(r, p)}}
	g := golden(sc.Files, sc.Procs[0])
	fr := rt.NewRng(seed, "faults")
	if fr.OneIn(80) { // a language that is not one of the five
		sc.Kind = "language"
		pr := p.proc()
		l := []string{"Python", "go", "GO", "golang", "Typescript", "C++", "Rust2018", "java ", ""}[fr.Intn(9)]
		if setArg(pr.Args, "-l", l); l == "" {
			pr.Args = nil
			for _, a := range [][2]string{{"-i", p.in}, {"-o", p.out}, {"-p", p.pkg}} {
				if a[1] != "" && !(a[0] == "-o" && p.noOut) {
					pr.Args = append(pr.Args, a[0], a[1])
				}
			}
		}
		sc.Procs = []Proc{pr}
		return sc
	}
	if fr.OneIn(12) {
		mkGrown(fr, sc)
		return sc
	}
	if fr.OneIn(2) {
		sc.Olds = mkOlds(fr, g.Outs, 5)
	}
	wr := written(g.Trace)
	for d := range parents(wr) {
		wr[d] = true
	}
	if fr.OneIn(6) {
		var total int64
		for _, v := range g.Outs {
			total += int64(len(v))
		}
		var in int64
		for _, f := range sc.Files {
			in += int64(len(f.Bytes()))
		}
		for _, f := range sc.Olds {
			in += int64(len(f.Bytes()))
		}
		sc.Kind = "disk full"
		sc.Cfg.Capacity = in + int64(fr.Intn(int(total)+2))
		return sc
	}
	sc.Kind = "write faults"
	sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(3), func(e rt.Ev) bool { return wr[e.Path] })
	return sc
}

func parents(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[path.Dir(k)] = true
	}
	return out
}

// someOutput checks that a success in an unknown language left something.
func someOutput(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	o := execute(sc)
	nontrivial = true
	ok, text := o.CLI(0)
	if !ok || argOf(p.Args, "-i") == "" {
		return nil
	}
	exp := expected(sc.Files, p)
	var ks []string
	for k := range exp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f, seen := findFile(sc.Files, k), false
		for _, e := range o.After[0] {
			if e.Mode.IsDir() || !strings.HasPrefix(e.Path, exp[k]) && e.Path != exp[k] || f == nil || f.Doc == nil {
				continue
			}
			all, n := true, norm(e.Data)
			for _, c := range f.Doc.Comps {
				for _, t := range c.Tokens {
					all = all && strings.Contains(n, norm(t))
				}
			}
			seen = seen || all
		}
		if f != nil && f.Doc != nil && !seen {
			return failf("missing-output", "exit status 0 for language %q (%q), but %s has no complete output at %s", argOf(p.Args, "-l"), firstLine(text), k, exp[k])
		}
	}
	return nil
}

func checkP01(sc *Scenario) *Fail {
	if sc.Kind == "language" {
		return someOutput(sc)
	}
	if sc.Kind == "grown" {
		return checkGrown(sc)
	}
	_, fl := successMeansGolden(sc)
	return fl
}

// ---- P02

func genP02(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.via = r.OneIn(10)
	o.odd = r.OneIn(5)
	o.loose = true
	o.files = 1 + r.Intn(5)
	o.links = r.Intn(o.files*2 + 1)
	o.enc = r.OneIn(3)
	fr := rt.NewRng(seed, "faults")
	kind := fr.Intn(4)
	o.cyclic = kind == 0 && r.OneIn(4)
	if kind != 1 && r.OneIn(30) {
		o.chain, o.files, o.links, o.comps, o.big, o.singleOnly = true, 4+r.Intn(13), r.Intn(4), 1, 0, true
	}
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P02", Files: p.fs}
	if kind == 0 && !o.chain && fr.OneIn(6) {
		sc.Procs = []Proc{p.proc()}
		mkGrown(fr, sc)
		return sc
	}
	switch kind {
	case 0:
		sc.Kind = "valid"
		sc.Procs = []Proc{p.proc()}
		sc.Cfg.MapSeed = fr.Uint64()
		sc.Cfg.DirSeed = fr.Uint64()
	case 1:
		sc.Kind = "cut short"
		sc.Procs = []Proc{asHost(r, p)}
		var el []*File
		g := golden(sc.Files, sc.Procs[0])
		for _, f := range sc.Files {
			if f.Doc != nil && wasRead(g.Trace, f.Path) {
				el = append(el, f)
			}
		}
		if len(el) == 0 {
			break
		}
		cp := *el[fr.Intn(len(el))]
		b := cp.Bytes()
		lo, hi := schemaSpan(b)
		cp.Cut = lo + fr.Intn(hi-lo)
		if fr.OneIn(4) && hi-lo > 20 {
			cp.Cut = hi - 1 - fr.Intn(20)
		}
		sc.Files = replaceFile(sc.Files, &cp)
	default:
		sc.Kind = "read faults"
		sc.Procs = []Proc{asHost(r, p)}
		g := golden(sc.Files, sc.Procs[0])
		wr := written(g.Trace)
		sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(3), func(e rt.Ev) bool {
			return !wr[e.Path] && (e.Op == "read" || e.Op == "open" || e.Op == "stat" || e.Op == "lstat" || e.Op == "readdir" || e.Op == "seek" || e.Op == "readlink")
		})
		if fr.OneIn(10) {
			sc.Cfg.MaxFDs = 1 + fr.Intn(4)
		}
	}
	return sc
}

func replaceFile(fs []*File, f *File) []*File {
	out := append([]*File(nil), fs...)
	for i := range out {
		if out[i].Path == f.Path {
			out[i] = f
		}
	}
	return out
}

func wasRead(tr []rt.Ev, p string) bool {
	for _, e := range tr {
		if e.Op == "read" && e.Path == p && e.N > 0 {
			return true
		}
	}
	return false
}

// schemaSpan is the range of lengths that cut a document inside its schema element.
func schemaSpan(b []byte) (lo, hi int) {
	if s := string(b); strings.HasPrefix(s, "\xff\xfe") || strings.HasPrefix(s, "\xfe\xff") {
		high, low := 1, 0
		if b[0] == 0xfe {
			high, low = 0, 1
		}
		units := make([]byte, len(b)/2-1)
		for i := range units {
			if units[i] = '?'; b[2+2*i+high] == 0 {
				units[i] = b[2+2*i+low]
			}
		}
		lo, hi = schemaSpan(units)
		return 2 + 2*lo, 2 + 2*hi
	}
	s := string(b)
	i := strings.Index(s, "schema")
	j := strings.Index(s[i:], ">")
	lo = i + j + 1
	hi = strings.LastIndex(s, "schema")
	hi += strings.Index(s[hi:], ">")
	if hi <= lo {
		hi = lo + 1
	}
	return
}

func checkP02(sc *Scenario) *Fail {
	if sc.Kind == "grown" {
		return checkGrown(sc)
	}
	p := &sc.Procs[0]
	switch sc.Kind {
	case "valid":
		nontrivial = len(sc.Files) > 1
		budget(sc, 1e6, 10000)
		o := execute(sc)
		ok, text := o.CLI(0)
		if !ok {
			return failf("valid-fails", "a valid schema set fails without any fault: %s %s", firstLine(text), bad(o.W.Procs[0]))
		}
		if fl := depsMissing(sc.Files, p, o.After[0]); fl != nil {
			return fl
		}
		return tokensMissing(sc.Files, p, inSnap(o.After[0]))
	case "cut short":
		var f *File
		for _, x := range sc.Files {
			if x.Cut > 0 {
				f = x
			}
		}
		if f == nil || f.Doc == nil {
			return nil
		}
		whole := *f
		whole.Cut = 0
		lo, hi := schemaSpan(whole.Bytes())
		if f.Cut < lo || f.Cut > hi {
			return nil
		}
		budget(sc, 1e6, 10000)
		o := execute(sc)
		if !wasRead(o.W.Trace, f.Path) {
			return nil
		}
		nontrivial = true
		if p.Tasks == nil {
			if ok, text := o.CLI(0); ok {
				return failf("cut-accepted", "%s is cut short inside its schema element (%d bytes of %d) and was read, but the command exits 0: %s", f.Path, f.Cut, len(whole.Bytes()), firstLine(text))
			}
			return nil
		}
		if r := o.Res[0][0][0]; r.OK() {
			return failf("cut-accepted", "%s is cut short inside its schema element (%d bytes of %d) and was read, but the library reports no error", f.Path, f.Cut, len(whole.Bytes()))
		}
		return nil
	}
	_, fl := successMeansGolden(sc)
	return fl
}

// ---- P03

func genP03(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.loose = true
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P03", Files: p.fs}
	fr := rt.NewRng(seed, "faults")
	if r.OneIn(20) {
		p.pkg = badPkg
	}
	if r.OneIn(2) {
		sc.Kind = "library"
		c := p.call()
		calls := []Call{c}
		for i := 0; i < 1+r.Intn(2); i++ {
			d := c
			if r.OneIn(2) {
				d.Out = fmt.Sprintf("%s/again%d", cwd, i)
			}
			calls = append(calls, d)
		}
		if r.OneIn(8) {
			calls[0].File = cwd + "/nowhere.xsd"
		}
		sc.Procs = []Proc{{Cwd: cwd, Tasks: [][]Call{calls}}}
	} else {
		sc.Kind = "command"
		sc.Procs = []Proc{p.proc()}
		if r.OneIn(12) {
			setArg(sc.Procs[0].Args, "-i", cwd+"/nowhere")
		}
	}
	g := golden(sc.Files, sc.Procs[0])
	if fr.OneIn(400) { // as many failures as fit into no counter
		n := []int{128, 255, 256, 256, 256, 257, 512}[fr.Intn(7)]
		sc.Files = nil
		for i := 0; i < n; i++ {
			sc.Files = append(sc.Files, &File{Path: fmt.Sprintf("%s/in/f%d.xsd", cwd, i), Raw: []byte("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"Qz\" type=\"xs:int\"/></xs:schema>")})
		}
		op := "read"
		if fr.OneIn(3) {
			op = "create"
		}
		sc.Kind, sc.Procs = "command", []Proc{(&plan{in: cwd + "/in", out: cwd + "/out", lang: p.lang, dir: true}).proc()}
		sc.Cfg.Faults = []rt.Fault{{Proc: -1, Op: op, Nth: 1, Count: -1, Err: "EIO"}}
		return sc
	}
	switch n := fr.Intn(12); {
	case n == 0: // none
	case n == 1:
		sc.Cfg.MaxFDs = 1 + fr.Intn(4)
	case n == 2:
		sc.Cfg.Capacity = int64(1 + fr.Intn(20000))
	default:
		sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(3), func(e rt.Ev) bool { return true })
	}
	return sc
}

func checkP03(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	g := golden(sc.Files, *p)
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	w := o.W
	if hard(w) > 0 {
		nontrivial = true
	}
	if fl := ending(o, 0); fl != nil {
		fl.Msg += " after " + fired(w)
		return fl
	}
	if p.Tasks != nil {
		if w.Procs[0].Exited {
			return failf("exit", "the library terminated its host (status %d) after %s: %s", w.Procs[0].Exit, fired(w), firstLine(w.Procs[0].Out.String()))
		}
		for i, r := range o.Res[0][0] {
			c := p.Tasks[0][i]
			if r.Panic != "" {
				return failf("panic", "call %d panicked with %s after %s", i, firstLine(r.Panic), fired(w))
			}
			if !r.Done {
				return failf("lost", "call %d did not return after %s", i, fired(w))
			}
			cg := goldenCall(sc.Files, p.Cwd, c)
			if !cg.OK {
				if r.Err == "" {
					return failf("no-error", "call %d on %s reports no error, but without faults it fails with %s", i, c.File, cg.Err)
				}
				continue
			}
			if r.Err == "" {
				if d := diffOuts(cg.Outs, inMap(r.Outs)); d != "" {
					return failf("no-error", "call %d reports no error after %s, but %s", i, fired(w), d)
				}
			} else if !r.Hit && sc.Cfg.MaxFDs == 0 && sc.Cfg.Capacity == 0 {
				return failf("error-without-fault", "call %d fails with %q though nothing failed during it", i, r.Err)
			}
		}
		return nil
	}
	pr := w.Procs[0]
	text := pr.Out.String() + pr.ErrOut.String()
	said := hasDone(pr.Out.String())
	if pr.Exit == 0 != said {
		return failf("done", "exit status %d, but the output is %q, after %s", pr.Exit, text, fired(w))
	}
	if pr.Exit == 0 {
		if !g.OK {
			return failf("no-error", "exit status 0, but without faults it fails with %s", g.Err)
		}
		if d := diffOuts(g.Outs, inSnap(o.After[0])); d != "" {
			return failf("no-error", "exit status 0 after %s, but %s", fired(w), d)
		}
		return nil
	}
	if g.OK && hard(w) == 0 && sc.Cfg.MaxFDs == 0 && sc.Cfg.Capacity == 0 {
		return failf("error-without-fault", "exit status %d though nothing failed: %s", pr.Exit, text)
	}
	if strings.TrimSpace(text) == "" {
		return failf("no-message", "exit status %d without any message after %s", pr.Exit, fired(w))
	}
	if !names(sc, p, w, text) {
		return failf("no-name", "exit status %d, but the message %q does not name the file whose processing failed, after %s", pr.Exit, text, fired(w))
	}
	return nil
}

func hasDone(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "done" {
			return true
		}
	}
	return false
}

// names reports whether a message names a file concerned by what failed.
func names(sc *Scenario, p *Proc, w *rt.World, text string) bool {
	var failed []string
	for _, e := range w.Trace {
		if e.Err != "" {
			failed = append(failed, e.Path)
		}
	}
	if len(failed) == 0 {
		failed = []string{inOf(p)}
	}
	exp := expected(sc.Files, p)
	given := argOf(p.Args, "-i")
	for _, f := range failed {
		if f == inOf(p) && given != "" && strings.Contains(text, given) {
			return true
		}
		if f != "/" && strings.Contains(text, path.Base(f)) {
			return true
		}
		for _, x := range sc.Files {
			if !strings.Contains(text, path.Base(x.Path)) {
				continue
			}
			out := exp[x.Path]
			for c := range closure(sc.Files, x.Path) {
				if c == f || exp[c] == f || strings.HasPrefix(exp[c], f+"/") || strings.Contains(f, path.Base(c)) || strings.HasPrefix(c, f+"/") {
					return true
				}
			}
			if out == f || strings.HasPrefix(out, f+"/") || path.Dir(out) == path.Dir(f) || strings.HasPrefix(f, locOf(p)) || strings.HasPrefix(locOf(p), f) {
				return true
			}
		}
	}
	return false
}

// ---- P04

func genP04(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.via = r.OneIn(10)
	o.enc = r.Intn(4) > 0
	o.style = r.Intn(4) > 0
	o.docs = r.Intn(4) > 0
	o.plain = true
	o.missing = false
	o.big /= 4
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P04", Files: p.fs, Procs: []Proc{asHost(r, p)}}
	fr := rt.NewRng(seed, "faults")
	switch fr.Intn(6) {
	case 0:
		sc.Kind = "encoding"
		for _, f := range p.fs {
			if f.Doc.Enc == "" {
				f.Doc.Decl = true
			}
		}
		return sc
	case 1:
		sc.Kind = "size"
		sc.Param = map[string]int{"pad": []int{100, 1000, 4096, 5000, 40000, 70000, 200000}[fr.Intn(7)], "k": fr.Intn(3)}
		if fr.OneIn(2) { // the document ends near a boundary
			n := len(p.fs[len(p.fs)-1].Bytes()) + 16
			b := boundaries[fr.Intn(len(boundaries))]
			sc.Param["pad"], sc.Param["k"] = (n/b+1)*b-n-10+fr.Intn(20), 0
		}
		if o.big > 0 && sc.Param["pad"] > 5000 {
			sc.Param["k"] = 0
		}
		if fr.OneIn(40) { // one file of megabytes
			sc.Param = map[string]int{"pad": (1 + fr.Intn(6)) * 1100000, "last": 1}
		}
		return sc
	}
	sc.Kind = "delivery"
	if fr.OneIn(3) {
		for _, f := range p.fs {
			if fr.OneIn(2) {
				f.Doc.Pad = []int{500, 1000, 4096, 9000, 70000}[fr.Intn(5)]
				f.Doc.PadK = 1 + fr.Intn(2)
				if n := len(f.Doc.Comps); n > 10 {
					f.Doc.PadK = n / 2
				}
			}
		}
	}
	chunks := func() []int {
		switch fr.Intn(6) {
		case 0:
			return []int{1}
		case 1:
			return []int{2}
		case 2:
			return []int{1 + fr.Intn(7), 1, 1 + fr.Intn(600)}
		case 3:
			return []int{511 + fr.Intn(4), 513}
		case 4:
			return []int{1 + fr.Intn(40), 100000}
		}
		n := 1 + fr.Intn(20)
		var c []int
		for i := 0; i < n; i++ {
			c = append(c, 1+fr.Intn(300))
		}
		return c
	}
	sc.Cfg.ChunkAll = chunks()
	sc.Cfg.Chunks = map[string][]int{}
	for _, f := range p.fs {
		if fr.OneIn(2) {
			sc.Cfg.Chunks[f.Path] = chunks()
		}
	}
	if fr.OneIn(3) {
		sc.Cfg.Latency = int64(fr.Intn(60)) * 1e9
	}
	return sc
}

func checkP04(sc *Scenario) *Fail {
	p := sc.Procs[0]
	files := sc.Files
	switch sc.Kind {
	case "encoding":
		files = nil
		for _, f := range sc.Files {
			c := *f
			d := *f.Doc
			if d.Enc != "" && d.Enc != "UTF-8" && d.Enc != "utf-8" {
				nontrivial = true
			}
			d.Enc = ""
			d.BOM = false
			c.Doc = &d
			files = append(files, &c)
		}
	case "size":
		files = nil
		for i, f := range sc.Files {
			if sc.Param["last"] == 1 && i+1 < len(sc.Files) {
				files = append(files, f)
				continue
			}
			c := *f
			d := *f.Doc
			d.Pad = sc.Param["pad"]
			d.PadK = sc.Param["k"]
			c.Doc = &d
			files = append(files, &c)
		}
		nontrivial = true
	default:
		nontrivial = true
	}
	g := golden(files, p)
	budget(sc, 40*g.Steps, 200*g.Ops+400000)
	o := execute(sc)
	ok := true
	msg := ""
	if p.Tasks == nil {
		ok, msg = o.CLI(0)
	} else {
		ok, msg = o.Res[0][0][0].OK(), o.Res[0][0][0].Err+o.Res[0][0][0].Panic
	}
	if ok != g.OK {
		return failf("delivery", "%s: succeeds %v one way and %v the other: %s %s %s", sc.Kind, ok, g.OK, firstLine(msg), g.Err, bad(o.W.Procs[0]))
	}
	if !ok {
		return nil
	}
	if d := diffOuts(g.Outs, inSnap(o.After[0])); d != "" {
		return failf("delivery", "%s changes the output: %s", sc.Kind, d)
	}
	return nil
}

// ---- P05

func genP05(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.via = r.OneIn(10)
	o.odd = r.OneIn(6)
	o.files = 1 + r.Intn(5)
	o.links = r.Intn(o.files*2 + 2)
	o.include = r.Intn(11)
	o.cyclic = r.OneIn(4)
	o.comps = 5
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P05", Files: p.fs, Procs: []Proc{asHost(r, p)}}
	if r.OneIn(3) { // the same type in several included files
		sameType(r, p.fs)
		sc.Kind = "same type"
	}
	fr := rt.NewRng(seed, "faults")
	for i := 0; i < 3; i++ {
		v := Variant{}
		if i == 0 || fr.OneIn(2) {
			v.Cfg.MapSeed = fr.Uint64() | 1
		}
		if i == 0 || fr.OneIn(2) {
			v.Cfg.DirSeed = fr.Uint64() | 1
		}
		v.Cfg.RandSeed = fr.Uint64()
		v.Cfg.EnvSeed = fr.Uint64() | 1
		v.Cfg.CPUs = 1 + fr.Intn(16)
		if fr.OneIn(2) {
			v.Cfg.Quantum = int64(1 + fr.Intn(300))
		}
		v.Cfg.Pid = 1 + fr.Intn(99999)
		v.Cfg.Host = fmt.Sprintf("h%d", fr.Intn(1000))
		v.Cfg.Clock = int64(fr.Intn(1 << 31))
		v.Cfg.Drift = int64(fr.Intn(2000000000)) - 1000000000
		v.Cfg.Zone = (fr.Intn(26) - 12) * 3600
		v.Cfg.Env = map[string]string{}
		for _, k := range []string{"HOME", "USER", "LANG", "TMPDIR", "TZ", "XGEN_DEBUG", "GOPATH", "SOURCE_DATE_EPOCH", "HOSTNAME", "DEBUG", "VERBOSE", "LOGNAME", "CI", "PATH", "LC_ALL", "NO_COLOR", "GOFLAGS", "GOPACKAGE", "GOFILE"} {
			if fr.OneIn(2) {
				v.Cfg.Env[k] = []string{"/tmp", "1", "x y", "C", fmt.Sprint(fr.Intn(100000))}[fr.Intn(5)]
			}
		}
		v.Stamp = int64(fr.Intn(1<<30)) - 1<<29
		if strings.HasPrefix(p.in, "/") && strings.HasPrefix(p.out, "/") && fr.OneIn(2) {
			v.Cwd = []string{"/", "/elsewhere", cwd + "/in", "/tmp"}[fr.Intn(4)]
		}
		sc.Vars = append(sc.Vars, v)
	}
	return sc
}

// sameType defines one simple type in two files, with different bases, and
// makes a third one that includes both use it.
func sameType(r *rt.Rng, fs []*File) {
	if len(fs) < 3 {
		return
	}
	g := newGen(r)
	a, b, c := fs[0], fs[1], fs[len(fs)-1]
	if c == a || c == b {
		return
	}
	t, u := g.tok(), g.tok()
	for i, f := range []*File{a, b} {
		f.Doc.Comps = append(f.Doc.Comps, Comp{Text: fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction base=\"%s%s\"/></%ssimpleType>\n", f.Doc.P, t, f.Doc.P, f.Doc.P, []string{"int", "boolean"}[i], f.Doc.P)})
		c.Doc.refer(Ref{Loc: relTo(c.Path, f.Path), Path: f.Path, Include: true})
	}
	c.Doc.Comps = append(c.Doc.Comps, Comp{Text: fmt.Sprintf("  <%selement name=\"%s\" type=\"%s%s\"/>\n", c.Doc.P, u, c.Doc.Self, t), Uses: []string{a.Path, b.Path}})
}

func checkP05(sc *Scenario) *Fail {
	p := sc.Procs[0]
	g := golden(sc.Files, p)
	if len(g.Outs) > 0 {
		nontrivial = true
	}
	for i, v := range sc.Vars {
		q := p
		if v.Cwd != "" {
			q.Cwd = v.Cwd
		}
		s := &Scenario{Files: sc.Files, Procs: []Proc{q}, Cfg: v.Cfg, Stamp: v.Stamp}
		budget(s, g.Steps, g.Ops)
		o := execute(s)
		ok := true
		if p.Tasks == nil {
			ok, _ = o.CLI(0)
		} else {
			ok = o.Res[0][0][0].OK()
		}
		if ok != g.OK {
			return failf("irreproducible", "succeeds %v in one environment, %v in another (variant %d)", g.OK, ok, i)
		}
		if d := diffOuts(g.Outs, inSnap(o.After[0])); d != "" {
			return failf("irreproducible", "another environment (variant %d) changes the output: %s", i, d)
		}
		if d := onlyOuts(o.Before, o.After[0], g.Outs); d != "" {
			return failf("irreproducible", "another environment (variant %d) leaves other files: %s", i, d)
		}
	}
	return nil
}

// onlyOuts checks that nothing but the given outputs is new.
func onlyOuts(before, after []rt.Entry, outs map[string]string) string {
	b := map[string]bool{}
	for _, e := range before {
		b[e.Path] = true
	}
	for _, e := range after {
		if e.Mode.IsDir() || b[e.Path] {
			continue
		}
		if _, ok := outs[e.Path]; !ok {
			return e.Path
		}
	}
	return ""
}

// ---- P06

func genP06(r *rt.Rng, seed uint64) *Scenario {
	sc := &Scenario{Prop: "P06"}
	g := newGen(r)
	n := 2 + r.Intn(3)
	o := setOpts{dir: cwd + "/in", files: 2 + r.Intn(4), comps: 3, include: r.Intn(8), subdirs: r.OneIn(3), style: r.OneIn(2), docs: r.OneIn(2)}
	o.links = r.Intn(o.files * 2)
	o.odd, o.via, o.enc, o.missing = r.OneIn(4), r.OneIn(12), r.OneIn(5), r.OneIn(6)
	sc.Files = g.set(o)
	// the same member names in different types, so that shared counters show
	if r.OneIn(2) {
		shareNames(g, sc.Files)
	}
	pr := Proc{Cwd: cwd}
	lang := g.pick(langs)
	same := r.OneIn(2)
	// Distinct output files: different schemas may share an output directory
	// if nothing else is generated into it.
	taken := map[string]bool{}
	var total int64
	ops := 0
	for i := 0; i < n; i++ {
		var calls []Call
		for k := 0; k < 1+r.Intn(3); k++ {
			f := sc.Files[r.Intn(len(sc.Files))]
			c := Call{File: f.Path, In: cwd + "/in", Out: cwd + "/out", Lang: lang, Pkg: g.pick([]string{"schema", "p2", ""})}
			if r.OneIn(15) {
				c.Pkg = badPkg
			}
			if !same {
				c.Lang = g.pick(langs)
			}
			if r.OneIn(4) {
				c.File, c.Dir = cwd+"/in", true
			}
			if r.OneIn(12) {
				c.File, c.Dir = cwd+"/in/none.xsd", false
			}
			if r.OneIn(3) {
				c = relative(r, c)
			}
			gl := goldenCall(sc.Files, cwd, c)
			for k := range gl.Outs {
				if taken[k] {
					c.Out = fmt.Sprintf("%s/out/t%d_%d", cwd, i, len(calls))
				}
			}
			gl = goldenCall(sc.Files, cwd, c)
			for k := range gl.Outs {
				taken[k] = true
			}
			total += gl.Steps
			ops += gl.Ops
			calls = append(calls, c)
		}
		pr.Tasks = append(pr.Tasks, calls)
	}
	sc.Procs = []Proc{pr}
	sr := rt.NewRng(seed, "schedule")
	switch sr.Intn(6) {
	case 4, 5:
		sc.Kind = "switches at file operations"
		for i, in := int64(1), 1+sr.Intn(8); i <= 2*int64(ops); i++ {
			if sr.OneIn(in) {
				sc.Cfg.OpPre = append(sc.Cfg.OpPre, rt.Preempt{At: i, Pick: sr.Intn(4)})
			}
		}
	case 0:
		sc.Cfg.Quantum = int64(1 + sr.Intn(300))
		sc.Kind = "round robin"
	case 1:
		sc.Kind = "few switches"
		for i := 0; i < 1+sr.Intn(3); i++ {
			sc.Cfg.Preempts = append(sc.Cfg.Preempts, rt.Preempt{At: 1 + int64(sr.Intn(int(total)+1)), Pick: sr.Intn(4)})
		}
	default:
		sc.Kind = "many switches"
		for i := 0; i < 4+sr.Intn(60); i++ {
			sc.Cfg.Preempts = append(sc.Cfg.Preempts, rt.Preempt{At: 1 + int64(sr.Intn(int(total)+1)), Pick: sr.Intn(4)})
		}
	}
	sc.Cfg.MapSeed = sr.Uint64()
	return sc
}

// relative writes the paths of a call relative to the working directory.
func relative(r *rt.Rng, c Call) Call {
	dot := ""
	if r.OneIn(3) {
		dot = "./"
	}
	rel := func(p string) string {
		if q := strings.TrimPrefix(p, cwd+"/"); q != p {
			return dot + q
		}
		return p
	}
	if r.Intn(3) > 0 {
		c.File, c.In = rel(c.File), rel(c.In)
	}
	if r.Intn(3) > 0 {
		c.Out = rel(c.Out)
	}
	return c
}

// shareNames gives files types whose members have names in common.
func shareNames(g *gen, fs []*File) {
	t := g.tok()
	forms := []string{t, strings.ToUpper(t), strings.ToLower(t), t[:4] + strings.ToUpper(t[4:5]) + t[5:], t[:2] + strings.ToUpper(t[2:3]) + t[3:], t[:2] + "_" + t[2:], t[:2] + "-" + t[2:]}
	for _, f := range fs {
		if f.Doc == nil {
			continue
		}
		P := f.Doc.P
		for i := 0; i < 1+g.r.Intn(2); i++ {
			n := g.tok()
			a, b := t, forms[1]
			if g.r.OneIn(2) { // spelled differently
				k := g.r.Intn(len(forms))
				a, b = forms[k], forms[(k+1+g.r.Intn(len(forms)-1))%len(forms)]
			}
			f.Doc.Comps = append(f.Doc.Comps, Comp{Text: fmt.Sprintf("  <%scomplexType name=\"%s\"><%ssequence><%selement name=\"%s\" type=\"%sint\"/><%selement name=\"%s\" type=\"%sstring\"/></%ssequence><%sattribute name=\"%s\" type=\"%sstring\"/></%scomplexType>\n", P, n, P, P, a, P, P, b, P, P, P, a, P, P)})
		}
	}
}

func checkP06(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	var steps int64
	ops := 0
	for _, t := range p.Tasks {
		for _, c := range t {
			g := goldenCall(sc.Files, p.Cwd, c)
			steps += g.Steps
			ops += g.Ops
		}
	}
	taken := map[string]bool{}
	for _, t := range p.Tasks {
		for _, c := range t {
			for k := range goldenCall(sc.Files, p.Cwd, c).Outs {
				if taken[k] {
					return nil // not independent
				}
				taken[k] = true
			}
		}
	}
	budget(sc, steps, ops)
	o := execute(sc)
	if o.W.Switch > 1 {
		nontrivial = true
	}
	if fl := ending(o, 0); fl != nil {
		return fl
	}
	if o.W.Procs[0].Exited {
		return failf("exit", "a generation terminated the process: %s", firstLine(o.W.Procs[0].Out.String()))
	}
	after := inSnap(o.After[0])
	for i, t := range o.Res[0] {
		for j, r := range t {
			c := p.Tasks[i][j]
			g := goldenCall(sc.Files, p.Cwd, c)
			if r.Panic != "" || !r.Done {
				return failf("concurrent-panic", "call %d of thread %d: panic %s", j, i, firstLine(r.Panic))
			}
			if r.OK() != g.OK {
				return failf("concurrent-result", "call %d of thread %d returns %q, alone %q", j, i, r.Err, g.Err)
			}
			if d := diffOuts(g.Outs, after); d != "" && g.OK {
				return failf("concurrent-output", "call %d of thread %d (%s, %s): output not as alone: %s", j, i, c.File, c.Lang, d)
			}
		}
	}
	for _, rc := range o.W.Races {
		return failf("race", "unsynchronised accesses to %s: %s and %s", rc.What, rc.A, rc.B)
	}
	return nil
}

// ---- P07

func genP07(r *rt.Rng, seed uint64) *Scenario {
	sc := &Scenario{Prop: "P07", Kind: "session"}
	g := newGen(r)
	o := setOpts{dir: cwd + "/in", files: 2 + r.Intn(4), comps: 3, include: r.Intn(8), subdirs: r.OneIn(3), style: r.OneIn(2), docs: r.OneIn(2), enc: r.OneIn(4), missing: r.OneIn(5)}
	o.links = r.Intn(o.files * 2)
	o.odd, o.via = r.OneIn(4), r.OneIn(12)
	sc.Files = g.set(o)
	if r.OneIn(2) {
		shareNames(g, sc.Files)
	}
	fr := rt.NewRng(seed, "faults")
	if fr.OneIn(3) { // a schema that is always rejected
		bad := g.set(setOpts{dir: cwd + "/bad", files: 1, comps: 3})[0]
		lo, hi := schemaSpan(bad.Bytes())
		bad.Cut = lo + fr.Intn(hi-lo)
		sc.Files = append(sc.Files, bad)
	}
	n := 3 + r.Intn(6)
	if r.OneIn(25) {
		n = 20 + r.Intn(60)
	}
	var calls []Call
	var tr []rt.Ev
	for i := 0; i < n; i++ {
		f := sc.Files[r.Intn(len(sc.Files))]
		if i > 0 && r.OneIn(3) {
			c := calls[r.Intn(len(calls))]
			if r.OneIn(2) {
				c.Lang = g.pick(langs)
			}
			calls = append(calls, c)
			continue
		}
		c := Call{File: f.Path, In: cwd + "/in", Out: cwd + "/out", Lang: g.pick(langs), Pkg: g.pick([]string{"schema", "p2", "p3", ""})}
		if r.OneIn(15) {
			c.Pkg = badPkg
		}
		if r.OneIn(3) {
			c.Out = fmt.Sprintf("%s/out%d", cwd, i)
		}
		switch r.Intn(12) {
		case 0:
			c.File = cwd + "/in/none.xsd"
		case 1, 2:
			c.File, c.Dir = cwd+"/in", true
		}
		if r.OneIn(4) {
			c = relative(r, c)
		}
		calls = append(calls, c)
	}
	if r.OneIn(3) { // schemas are edited between calls
		sc.Kind = "edited session"
		cur := sc.Files
		for i := 1; i < n; i++ {
			if !r.OneIn(2) {
				continue
			}
			f := cur[r.Intn(len(cur))]
			if orig := findFile(sc.Files, f.Path); r.OneIn(3) && orig != f {
				f = orig // put back
			} else if f = g.editFile(f); f == nil {
				continue
			}
			cur = replaceFile(cur, f)
			calls[i].Swap = []*File{f}
			if r.OneIn(2) { // ask for it again
				calls[i].File, calls[i].Dir, calls[i].In = f.Path, false, cwd+"/in"
			}
		}
	}
	if r.OneIn(3) { // time stamps tell nothing
		at := int64(1 + r.Intn(3)*1e7)
		sc.Files = stamped(at, sc.Files)
		for i := range calls {
			calls[i].Swap = stamped(at, calls[i].Swap)
		}
	}
	sc.Procs = []Proc{{Cwd: cwd, Tasks: [][]Call{calls}}}
	tr = golden(sc.Files, sc.Procs[0]).Trace
	if fr.Intn(4) > 0 {
		// faults that strike a while, then stop
		cut := len(tr) * (1 + fr.Intn(3)) / 4
		sc.Cfg.Faults = pickFaults(fr, tr[:cut], 1+fr.Intn(4), func(e rt.Ev) bool { return true })
		for i := range sc.Cfg.Faults {
			if sc.Cfg.Faults[i].Count < 0 {
				sc.Cfg.Faults[i].Count = 1 + fr.Intn(5)
			}
		}
	}
	sc.Cfg.MapSeed = fr.Uint64()
	return sc
}

func checkP07(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	g := golden(sc.Files, *p)
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	if len(p.Tasks[0]) > 1 {
		nontrivial = true
	}
	if bad(o.W.Procs[0]) != "" {
		return failf("bad-end", "the session ended with %s after %s", bad(o.W.Procs[0]), fired(o.W))
	}
	files := sc.Files
	for i, r := range o.Res[0][0] {
		c := p.Tasks[0][i]
		for _, f := range c.Swap {
			files = replaceFile(files, f)
		}
		c.Swap = nil
		if r.Hit {
			continue
		}
		if !r.Done && r.Panic == "" {
			break // the process ended: not this property
		}
		cg := goldenCall(files, p.Cwd, c)
		if r.OK() != cg.OK {
			return failf("history-result", "call %d on %s returns %q %s after this session, in a fresh process %q", i, c.File, r.Err, r.Panic, cg.Err)
		}
		if r.OK() {
			if d := diffOuts(cg.Outs, inMap(r.Outs)); d != "" {
				return failf("history-output", "call %d on %s (%s): output depends on the session before it: %s", i, c.File, c.Lang, d)
			}
		} else if r.Err != cg.Err {
			return failf("history-result", "call %d on %s fails with %q after this session, in a fresh process with %q", i, c.File, r.Err, cg.Err)
		}
	}
	return nil
}

// ---- P08

func genP08(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.loose = true
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P08", Files: p.fs}
	fr := rt.NewRng(seed, "faults")
	g := golden(sc.Files, p.proc())
	if fr.Intn(3) > 0 {
		sc.Olds = mkOlds(fr, g.Outs, 2+fr.Intn(8))
	}
	loc := absIn(cwd, p.out)
	for _, u := range mkUnrelated(fr, loc, exts[p.lang]) {
		if _, ok := g.Outs[u.Path]; !ok && fr.OneIn(2) {
			sc.Olds = append(sc.Olds, u)
		}
	}
	n := fr.Intn(3)
	if fr.Intn(4) > 0 && n == 0 {
		n = 1
	}
	sc.Kind = fmt.Sprintf("%d crashes", n)
	for i := 0; i <= n; i++ {
		sc.Procs = append(sc.Procs, p.proc())
	}
	for i := 0; i < n; i++ {
		c := rt.Crash{Proc: i, Power: fr.OneIn(3), Seed: fr.Uint64(), Part: fr.Intn(1001)}
		if fr.OneIn(3) {
			c.Step = 1 + int64(fr.Intn(int(g.Steps)+1))
		} else {
			c.Op = 1 + fr.Intn(g.Ops+1)
			if fr.OneIn(2) { // at something that changes the disk
				var ch []int
				for _, e := range g.Trace {
					switch e.Op {
					case "create", "write", "mkdir", "rename", "truncate", "remove", "sync", "close":
						ch = append(ch, e.OpNo)
					}
				}
				if len(ch) > 0 {
					c.Op = ch[fr.Intn(len(ch))]
				}
			}
			c.Phase = []string{"before", "mid", "after", "mid"}[fr.Intn(4)]
		}
		sc.Cfg.Crashes = append(sc.Cfg.Crashes, c)
	}
	if n > 0 && fr.OneIn(4) { // the schemas were edited since
		ed := newGen(fr)
		for _, f := range p.fs {
			if e := ed.editFile(f); e != nil && fr.OneIn(2) {
				sc.Files = replaceFile(sc.Files, e)
				sc.Procs[n].Swap = append(sc.Procs[n].Swap, f)
			}
		}
	}
	if fr.OneIn(4) { // time stamps of schemas tell nothing
		at := int64(1 + fr.Intn(3)*1e7)
		sc.Files = stamped(at, sc.Files)
		sc.Procs[n].Swap = stamped(at, sc.Procs[n].Swap)
	}
	return sc
}

func checkP08(sc *Scenario) *Fail {
	last := len(sc.Procs) - 1
	final := sc.Files
	swapped := map[string]bool{}
	for _, f := range sc.Procs[last].Swap {
		final = replaceFile(final, f)
		swapped[f.Path] = true
	}
	lastProc := sc.Procs[last]
	lastProc.Swap = nil
	g := golden(final, lastProc)
	if !g.OK {
		return nil
	}
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	for i := 0; i < last; i++ {
		if o.W.Procs[i].Crashed {
			nontrivial = true
		}
	}
	if len(sc.Olds) > 0 {
		nontrivial = true
	}
	if fl := ending(o, last); fl != nil {
		return fl
	}
	ok, text := o.CLI(last)
	if !ok {
		return failf("rerun-fails", "running again after %s fails: %s", sc.Kind, firstLine(text))
	}
	if d := diffOuts(g.Outs, inSnap(o.After[last])); d != "" {
		return failf("rerun-differs", "running again after %s does not repair the outputs: %s", sc.Kind, d)
	}
	if d := onlyOuts(o.Before, o.After[last], g.Outs); d != "" {
		return failf("leftover", "after %s and a complete rerun, %s is left behind", sc.Kind, d)
	}
	if d := damaged(o.Before, o.After[last], func(p string) bool { _, ok := g.Outs[p]; return ok || swapped[p] }); d != "" {
		return failf("rerun-damage", "after %s and a complete rerun, %s", sc.Kind, d)
	}
	return nil
}

// damaged looks for entries that changed or went, except the allowed ones.
func damaged(before, after []rt.Entry, allowed func(string) bool) string {
	m := map[string]rt.Entry{}
	for _, e := range after {
		m[e.Path] = e
	}
	for _, e := range before {
		if allowed(e.Path) {
			continue
		}
		a, ok := m[e.Path]
		switch {
		case !ok:
			return e.Path + " is gone"
		case a.Mode != e.Mode:
			return fmt.Sprintf("the mode of %s changed from %v to %v", e.Path, e.Mode, a.Mode)
		case e.Mode.IsDir():
		case a.Data != e.Data || a.Target != e.Target:
			return e.Path + " has other content"
		case a.Ino != e.Ino:
			return e.Path + " was replaced"
		case !a.Mtime.Equal(e.Mtime):
			return "the time stamp of " + e.Path + " changed"
		}
	}
	return ""
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- P09

func genP09(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.files = 1 + r.Intn(5)
	o.links = r.Intn(o.files*2 + 2)
	o.subdirs = r.Intn(4) > 0
	g := newGen(r)
	roots := []string{cwd + "/in", cwd + "/a/b/in", "/data/schemas"}
	o.dir = g.pick(roots)
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P09", Files: p.fs}
	pr := p.proc()
	// start below or beside the schemas, so that references lead upwards
	if r.OneIn(2) {
		pr.Cwd = g.pick([]string{cwd, cwd + "/a", cwd + "/a/b/in/sub", cwd + "/in/d0", path.Dir(p.fs[len(p.fs)-1].Path)})
		abs := absIn(cwd, p.in)
		if r.OneIn(2) {
			pr.Args[1] = relTo(pr.Cwd+"/x", abs)
			if abs == pr.Cwd {
				pr.Args[1] = "."
			}
		} else {
			pr.Args[1] = abs
		}
		pr.Args[3] = g.pick([]string{"out", "../out", "/work/out", "gen/x", "o.d/./out"})
	}
	fr := rt.NewRng(seed, "faults")
	if strings.HasPrefix(locOf(&pr), inOf(&pr)+"/") || locOf(&pr) == inOf(&pr) || inLoc(inOf(&pr), locOf(&pr)) {
		pr.Args[3] = "/work/elsewhere/out"
	}
	sc.Procs = []Proc{pr}
	gd := golden(sc.Files, pr)
	loc := locOf(&pr)
	for _, u := range mkUnrelated(fr, loc, exts[p.lang]) {
		if _, ok := gd.Outs[u.Path]; !ok {
			sc.Olds = append(sc.Olds, u)
		}
	}
	for _, k := range sortedKeys(gd.Outs) {
		if d := path.Dir(k); inLoc(d, loc) && fr.OneIn(6) {
			sc.Olds = append(sc.Olds, &File{Path: d, Dir: true, Mode: []int{0o555, 0o500, 0o777, 0o700, 0o775}[fr.Intn(5)]})
		}
	}
	if fr.OneIn(2) {
		sc.Olds = append(sc.Olds, mkOlds(fr, gd.Outs, 5)...)
	}
	switch fr.Intn(4) {
	case 0:
		sc.Kind = "crash"
		sc.Cfg.Crashes = []rt.Crash{{Proc: 0, Op: 1 + fr.Intn(gd.Ops+1), Phase: []string{"before", "mid", "after"}[fr.Intn(3)], Part: fr.Intn(1001), Power: fr.OneIn(3), Seed: fr.Uint64()}}
	case 1:
		sc.Kind = "faults"
		sc.Cfg.Faults = pickFaults(fr, gd.Trace, 1+fr.Intn(3), func(e rt.Ev) bool { return true })
	case 2:
		sc.Kind = "disk full"
		sc.Cfg.Capacity = int64(1 + fr.Intn(20000))
	default:
		sc.Kind = "no fault"
	}
	return sc
}

func checkP09(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	loc := locOf(p)
	g := golden(sc.Files, *p)
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	nontrivial = len(sc.Olds) > 0 || hard(o.W) > 0
	isOld := map[string]bool{}
	for _, e := range o.Before {
		isOld[e.Path] = true
	}
	for _, e := range o.W.Trace {
		if e.Err != "" {
			continue
		}
		switch e.Op {
		case "create", "write", "remove", "rename", "rename-from", "chmod", "chown", "chtimes", "truncate", "link", "symlink":
			if !inLoc(e.Path, loc) {
				return failf("outside", "%s of %s, outside the output location %s", e.Op, e.Path, loc)
			}
		case "mkdir":
			if !inLoc(e.Path, loc) && !strings.HasPrefix(loc, e.Path+"/") {
				return failf("outside", "mkdir of %s, outside the output location %s", e.Path, loc)
			}
		}
	}
	if d := damaged(o.Before, o.After[0], func(p string) bool { _, ok := g.Outs[p]; return ok }); d != "" {
		return failf("damage", "%s (output location %s; %s)", d, loc, fired(o.W))
	}
	ok, _ := o.CLI(0)
	for _, e := range o.After[0] {
		if isOld[e.Path] {
			continue
		}
		if e.Mode.IsDir() {
			if !inLoc(e.Path, loc) && !strings.HasPrefix(loc, e.Path+"/") {
				return failf("outside", "directory %s was created, outside the output location %s", e.Path, loc)
			}
			continue
		}
		if !inLoc(e.Path, loc) {
			return failf("outside", "%s was created, outside the output location %s", e.Path, loc)
		}
		if _, want := g.Outs[e.Path]; ok && !want {
			return failf("leftover", "a successful run left %s behind", e.Path)
		}
	}
	// what a fault-free run creates must be outputs of the schemas
	for k := range g.Outs {
		if !strings.HasSuffix(k, exts[argOf(p.Args, "-l")]) {
			return failf("leftover", "a successful run left %s behind", k)
		}
	}
	return nil
}

// ---- P10

func genP10(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.dirOnly = true
	o.files = 1 + r.Intn(6)
	o.odd = r.Intn(3) > 0
	o.subdirs = r.Intn(4) > 0
	o.links = r.Intn(o.files + 1)
	o.comps = 2
	p := mkPlan(r, o)
	g := newGen(r)
	for _, n := range []string{"README.txt", "sub.d/notes", "empty.xsd", "d9/.keep", "z.bin", "a/b/c/d/e/deep.txt", "dir.xsd/inner.xsd", ".h/.x/inner.xsd", ".gitignore", "Makefile", "inner.xsd~", "#inner.xsd#", "inner.wsdl", "CVS/inner.xsd", "x.tmp/inner.XSD"} {
		if r.OneIn(5) {
			var raw []byte
			switch {
			case strings.HasPrefix(n, "README"):
				raw = []byte("just some text, no markup\n")
			case n == "z.bin":
				raw = []byte{0, 1, 2, 250, 251, 7}
			case n == "sub.d/notes":
				raw = []byte("<html><body>no schema</body></html>")
			case strings.Contains(n, "inner"):
				raw = []byte("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"QzInner\" type=\"xs:int\"/></xs:schema>")
			}
			p.fs = append(p.fs, &File{Path: cwd + "/in/" + n, Raw: raw})
		}
	}
	if r.OneIn(4) {
		p.fs = append(p.fs, &File{Path: cwd + "/in/emptydir", Dir: true})
	}
	if f := p.fs[r.Intn(len(p.fs))]; r.OneIn(8) && f.Doc != nil { // the same document, or file, again
		c := *f
		c.Path = path.Dir(f.Path) + "/" + g.pick([]string{"again.xsd", "A-copy", "same.xsd.xsd", "0"})
		if r.OneIn(2) {
			c.Hard = f.Path
		}
		p.fs = append(p.fs, &c)
	}
	tiny := func(rel string) {
		t := g.tok()
		p.fs = append(p.fs, &File{Path: cwd + "/in/" + rel, Doc: &Doc{P: "xs:", TNS: "urn:w", Comps: []Comp{{Text: fmt.Sprintf("  <xs:element name=\"%s\" type=\"xs:int\"/>\n", t), Tokens: []string{t}}}}})
	}
	switch r.Intn(40) {
	case 0: // many entries
		for i, n := 0, 60+r.Intn(300); i < n; i++ {
			tiny(fmt.Sprintf("wide/w%d.xsd", i))
		}
	case 1: // many directories
		for i, n := 0, 20+r.Intn(100); i < n; i++ {
			tiny(fmt.Sprintf("wd%d/x.xsd", i))
		}
	case 2, 3: // deep down
		d := ""
		for i, n := 0, 8+r.Intn(60); i < n; i++ {
			d += g.pick([]string{"d/", "e/", "long-directory-name/"})
			if r.OneIn(8) {
				tiny(d + "here.xsd")
			}
		}
		tiny(d + "bottom.xsd")
	case 4: // long names
		tiny(strings.Repeat("n", 120+r.Intn(120)) + ".xsd")
	}
	p.in = g.pick([]string{cwd + "/in", "in", "in/", "./in", "../work/in", "/work/in/", "/work/./in", "."})
	pr := p.proc()
	if p.in == "." {
		pr.Cwd = cwd + "/in"
		pr.Args[3] = g.pick([]string{"../out", "/work/out"})
	}
	sc := &Scenario{Prop: "P10", Files: p.fs, Procs: []Proc{pr}}
	fr := rt.NewRng(seed, "faults")
	sc.Cfg.DirSeed = fr.Uint64()
	gd := golden(sc.Files, pr)
	wr := written(gd.Trace)
	sc.Kind = "no fault"
	if fr.Intn(3) > 0 {
		sc.Kind = "faults"
		only := fr.OneIn(2)
		sc.Cfg.Faults = pickFaults(fr, gd.Trace, 1+fr.Intn(2), func(e rt.Ev) bool {
			if only {
				return e.Op == "readdir" || e.Op == "lstat" || e.Op == "open" && isDirIn(sc.Files, e.Path) || e.Op == "stat" && !wr[e.Path]
			}
			return true
		})
	}
	return sc
}

func checkP10(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	g := golden(sc.Files, *p)
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	nontrivial = true
	if fl := ending(o, 0); fl != nil {
		return fl
	}
	ok, text := o.CLI(0)
	if !ok {
		if hard(o.W) == 0 && sc.Cfg.Capacity == 0 {
			return failf("dir-fails", "a directory of valid files fails without a fault: %s", firstLine(text))
		}
		if !names(sc, p, o.W, text) {
			return failf("no-name", "the command fails, but the message %q does not name the path, after %s", text, fired(o.W))
		}
		return nil
	}
	have := inSnap(o.After[0])
	if fl := tokensMissing(sc.Files, p, have); fl != nil {
		fl.Msg += " after " + fired(o.W)
		return fl
	}
	if d := diffOuts(g.Outs, have); d != "" {
		return failf("incomplete", "exit status 0 after %s, but %s", fired(o.W), d)
	}
	return nil
}

// ---- P11

func genP11(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.files = 1 + r.Intn(5)
	o.links = r.Intn(o.files*2 + 1)
	switch r.Intn(40) {
	case 0: // many files side by side
		o.files, o.links, o.comps, o.big, o.dirOnly = 25+r.Intn(40), 0, 1, 0, true
	case 1, 2: // many references of one file
		o.star, o.files, o.links, o.comps, o.big = true, 15+r.Intn(20), 0, 1, 0
		o.singleOnly = true
	}
	p := mkPlan(r, o)
	if o.star {
		p.main = p.fs[len(p.fs)-1]
		p.in = p.main.Path
	}
	sc := &Scenario{Prop: "P11", Files: p.fs, Kind: "calls"}
	fr := rt.NewRng(seed, "faults")
	var calls []Call
	n := 1 + r.Intn(3)
	if r.OneIn(8) && len(p.fs) < 4 {
		n = 30 + r.Intn(30)
		sc.Kind = "many calls"
	}
	c := p.call()
	for i := 0; i < n; i++ {
		d := c
		if r.OneIn(6) {
			d.File, d.Dir = cwd+"/in/none.xsd", false
		}
		if r.OneIn(6) {
			d.Pkg = badPkg
		}
		if r.OneIn(6) {
			d.Out = cwd + "/out2"
		}
		calls = append(calls, d)
	}
	sc.Procs = []Proc{{Cwd: cwd, Tasks: [][]Call{calls}}}
	g := golden(sc.Files, sc.Procs[0])
	if fr.Intn(4) > 0 {
		sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(4), func(e rt.Ev) bool { return true })
	}
	if n > 10 {
		sc.Cfg.MaxFDs = g.MaxOpen + 4
	}
	return sc
}

func checkP11(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	g := golden(sc.Files, *p)
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	nontrivial = hard(o.W) > 0 || len(p.Tasks[0]) > 10
	limit := 0
	for _, f := range sc.Files {
		if n := nesting(sc.Files, f.Path); n > limit {
			limit = n
		}
	}
	depth := 0
	for _, f := range sc.Files {
		if d := strings.Count(f.Path, "/"); d > depth {
			depth = d
		}
	}
	limit = 2*limit + depth + 6
	for i, r := range o.Res[0][0] {
		if !r.Done && r.Panic == "" {
			break
		}
		if len(r.Open) > 0 {
			return failf("leak", "call %d on %s returned (%q) with handles open: %s, after %s", i, p.Tasks[0][i].File, r.Err, strings.Join(r.Open, ", "), fired(o.W))
		}
		if sc.Cfg.MaxFDs > 0 && !r.Hit {
			cg := goldenCall(sc.Files, p.Cwd, p.Tasks[0][i])
			if cg.OK != r.OK() {
				return failf("leak", "call %d returns %q under a limit of %d handles, alone %q", i, r.Err, sc.Cfg.MaxFDs, cg.Err)
			}
		}
	}
	if m := o.W.Procs[0].MaxOpen; m > limit {
		return failf("many-handles", "%d handles open at a time, with a nesting that allows %d", m, limit)
	}
	return nil
}

// ---- P12

func genP12(r *rt.Rng, seed uint64) *Scenario {
	g := newGen(r)
	sc := &Scenario{Prop: "P12"}
	fr := rt.NewRng(seed, "faults")
	var lang = g.pick(langs)
	switch r.Intn(4) {
	case 0: // layers of diamonds
		sc.Kind = "diamonds"
		n := 6 + r.Intn(14)
		var gs []*docGen
		for i := 0; i < n; i++ {
			d := &Doc{P: "xs:", TNS: fmt.Sprintf("urn:x:%d", i), Self: "t:"}
			f := &File{Path: fmt.Sprintf("%s/in/f%d.xsd", cwd, i), Doc: d}
			sc.Files = append(sc.Files, f)
			x := &docGen{g: g, d: d, path: f.Path}
			x.alias()
			gs = append(gs, x)
		}
		inc := r.OneIn(3)
		for i := 2; i < n; i++ {
			g.link(gs, i, i-1, inc)
			g.link(gs, i, i-2, inc)
		}
		for _, x := range gs {
			for _, t := range x.ext {
				x.pair(t)
				if r.OneIn(3) {
					x.pair(t)
				}
			}
		}
	case 1: // rings
		sc.Kind = "ring"
		n := 1 + r.Intn(8)
		var gs []*docGen
		for i := 0; i < n; i++ {
			d := &Doc{P: "xs:", TNS: fmt.Sprintf("urn:x:%d", i), Self: "t:"}
			f := &File{Path: fmt.Sprintf("%s/in/f%d.xsd", cwd, i), Doc: d}
			sc.Files = append(sc.Files, f)
			x := &docGen{g: g, d: d, path: f.Path}
			x.alias()
			gs = append(gs, x)
		}
		inc := r.OneIn(2)
		for i := range gs {
			g.link(gs, i, (i+1)%n, inc)
			if r.OneIn(3) {
				g.link(gs, i, r.Intn(n), r.OneIn(2))
			}
		}
		for _, x := range gs {
			for _, t := range x.ext {
				x.pair(t)
			}
			x.comp()
		}
	default:
		sc.Kind = "graph"
		o := setOpts{dir: cwd + "/in", files: 2 + r.Intn(7), comps: 3, include: r.Intn(11), subdirs: r.OneIn(2), cyclic: true}
		o.links = r.Intn(o.files * 4)
		sc.Files = g.set(o)
	}
	// names defined nowhere make the search go everywhere
	if r.OneIn(3) {
		for _, f := range sc.Files {
			if f.Doc != nil && r.OneIn(2) {
				q := f.Doc.Self
				for _, rf := range f.Doc.Refs {
					if rf.Prefix != "" && r.OneIn(2) {
						q = rf.Prefix + ":"
					}
				}
				f.Doc.Comps = append(f.Doc.Comps, Comp{Text: fmt.Sprintf("  <%selement name=\"%s\" type=\"%s%s\"/>\n", f.Doc.P, g.tok(), q, g.tok())})
			}
		}
	}
	pl := &plan{fs: sc.Files, lang: lang, in: cwd + "/in", out: cwd + "/out"}
	if r.Intn(3) > 0 {
		pl.in = sc.Files[len(sc.Files)-1].Path
		pl.out = cwd + "/out/s"
	}
	sc.Procs = []Proc{pl.proc()}
	sc.Cfg.MapSeed = fr.Uint64()
	if fr.OneIn(3) {
		g := goldenB(sc.Files, sc.Procs[0])
		if g != nil {
			sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(3), func(e rt.Ev) bool { return true })
		}
	}
	return sc
}

// goldenB is golden for sets whose processing may not end.
func goldenB(fs []*File, p Proc) *Gold {
	g := golden(fs, p)
	if g.W.Procs[0].Budget != "" {
		return nil
	}
	return g
}

func checkP12(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	nfiles, nrefs, ntypes, size := 0, 0, 0, 0
	for _, f := range sc.Files {
		if f.Doc == nil {
			continue
		}
		nfiles++
		nrefs += len(f.Doc.Refs)
		t := f.Doc.Text()
		size += len(t)
		ntypes += strings.Count(t, "ype=\"") + strings.Count(t, "base=\"") + strings.Count(t, "ref=\"")
		for _, c := range f.Doc.Comps {
			if i := strings.Index(c.Text, "memberTypes"); i >= 0 {
				ntypes += strings.Count(c.Text[i:], " ")
			}
		}
	}
	runs := 1
	if isDirIn(sc.Files, inOf(p)) {
		runs = nfiles
	}
	maxOpens := runs*(4+3*(ntypes+nrefs+1)*(nfiles+1)) + 2*nfiles + 20
	sc.Cfg.OpBudget = 12*maxOpens + 1000
	sc.Cfg.CallBudget = maxOpens
	sc.Cfg.StepBudget = int64(maxOpens)*int64(size/2+2000) + 2e6
	if sc.Cfg.StepBudget > 60e6 {
		sc.Cfg.StepBudget = 60e6
	}
	o := execute(sc)
	nontrivial = nrefs > 0
	if b := bad(o.W.Procs[0]); b != "" {
		return failf("unbounded", "%s of %d files, %d references, %d uses of types: %s (%d opens, %d steps, bound %d opens) after %s", sc.Kind, nfiles, nrefs, ntypes, b, o.W.Procs[0].Opens, o.W.Procs[0].Steps, maxOpens, fired(o.W))
	}
	writes := map[string]int{}
	for _, e := range o.W.Trace {
		if e.Op == "create" && e.Err == "" {
			writes[e.Path]++
			if writes[e.Path] > 2*runs+1 {
				return failf("unbounded", "%s of %d files: output %s is generated more than %d times", sc.Kind, nfiles, e.Path, 2*runs+1)
			}
		}
	}
	ok, text := o.CLI(0)
	if !ok && hard(o.W) == 0 {
		return failf("graph-fails", "%s of %d files fails without a fault: %s", sc.Kind, nfiles, firstLine(text))
	}
	return nil
}

// ---- P13

var dmgTexts = []string{"<", ">", "/", "</", "\"", "&", "<!--", "]]>", "\x00", "<xs:group/>", "<charData/>", "<xs:element/>", "</xs:element>", "</xs:complexType>", "<xs:complexType>", "<xs:attribute/>", "</xs:attribute>", "<xs:group ref=\"x\"/>", "<xs:simpleType>", "</xs:simpleType>", "<xs:attributeGroup/>", "<xs:restriction>", "<xs:union/>", "<xs:list/>", "<xs:extension/>", "<xs:choice>", "</xs:choice>", "<xs:enumeration/>", "<xs:pattern value=\"[\"/>", "<xs:import/>", "<xs:include/>", "<xs:minLength value=\"x\"/>", "<xs:fractionDigits value=\"-1\"/>", "<?xml version=\"1.0\" encoding=\"x-none\"?>", "<?xml version=\"1.1\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "minOccurs=\"x\"", "maxOccurs=\"99999999999999999999\"", ":", "::", "<a:b:c/>", "\xff\xfe", " name=\"\"", "name=\"1\"", "<xs:attributeGroup name=\"q\">", "</xs:attributeGroup>", "<xs:schema>", "</xs:schema>", "<xs:length value=\"\"/>", "<token/>", "<parse/>", "</parse>", "<value/>", "<xs:documentation>", "type=\"", "ref=\""}

func genP13(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.files = 1 + r.Intn(3)
	o.links = r.Intn(o.files * 2)
	o.comps = 4
	o.plain = true
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P13", Files: p.fs, Kind: "damage"}
	fr := rt.NewRng(seed, "faults")
	for n := 1 + fr.Intn(2); n > 0; n-- {
		f := *p.fs[fr.Intn(len(p.fs))]
		for k := 1 + fr.Intn(3); k > 0; k-- {
			f.Damage = append(f.Damage, mkDamage(fr, f.Bytes()))
		}
		sc.Files = replaceFile(sc.Files, &f)
		p.fs = sc.Files
	}
	if fr.OneIn(12) { // content of another file
		f := *p.fs[fr.Intn(len(p.fs))]
		f.Doc = nil
		f.Raw = [][]byte{[]byte("package x\n\ntype A struct{}\n"), []byte("\x7fELF\x02\x01\x01\x00\x00"), []byte("{\"json\": [1,2]}"), []byte("\xff\xfea\x00<\x00 \x00b\x00"), []byte("\xfe\xff\x00x"), []byte("\xff\xfe"), []byte("\xfe"), []byte("<html><head><title>x</title></head><body><p>y<br></body></html>"), []byte(""), []byte("<a/>"), []byte("\xff\xfe<\x00a\x00/\x00>\x00")}[fr.Intn(7)]
		sc.Files = replaceFile(sc.Files, &f)
	}
	sc.Procs = []Proc{{Cwd: cwd, Tasks: [][]Call{{p.call()}}}}
	if r.OneIn(4) {
		sc.Procs = []Proc{p.proc()}
	}
	return sc
}

var dmgNames = []string{"element", "complexType", "simpleType", "attribute", "group", "attributeGroup", "union", "list", "restriction", "extension", "choice", "sequence", "charData", "schema", "import", "include", "enumeration", "documentation", "all", "any", "pattern", "length", "maxLength", "minLength", "totalDigits", "fractionDigits", "whiteSpace", "maxInclusive", "minExclusive", "simpleContent", "complexContent", "annotation", "redefine", "key"}

// dmgValues are values of attributes.
var dmgValues = []string{":", "a:", ":a", "a:b:c", "::", "-", ".", "1", "-1", "+5", "1.5", "1e9", "99999999999999999999", "9000000000000000000", "-9000000000000000000", "4294967295", "0x10", " ", " a b ", "\t", "é", "日本", "_", "__", "$", "type", "func", "string", "xs:string", "xs:", "xs:nothing", "unbounded", "true", "[", "(", "\\", "a/b", "../..", "/", ".", "..", "http://", "file:///etc", "%zz", "a#b", "a?b", "&lt;", "&#x10FFFF;", "&#10;", "*", "a-b", "A", "a,b", strings.Repeat("n", 5000), "xml:lang", "xmlns", "anyType"}

// spans finds the elements of a document: start tag, and the whole of it.
func spans(s string) (out [][3]int) {
	var stack []int
	for i := 0; i < len(s); i++ {
		if s[i] != '<' || i+1 >= len(s) {
			continue
		}
		if s[i+1] == '!' || s[i+1] == '?' {
			continue
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			break
		}
		j += i
		switch {
		case s[i+1] == '/':
			if len(stack) > 0 {
				k := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				out[k][2] = j + 1
			}
		case s[j-1] == '/':
			out = append(out, [3]int{i, j + 1, j + 1})
		default:
			stack = append(stack, len(out))
			out = append(out, [3]int{i, j + 1, -1})
		}
		i = j
	}
	n := 0
	for _, x := range out {
		if x[2] > 0 {
			out[n] = x
			n++
		}
	}
	return out[:n]
}

// elemDamage drops, copies, moves, unwraps or renames a whole element.
func elemDamage(r *rt.Rng, s string) (Dmg, bool) {
	sp := spans(s)
	if len(sp) < 3 {
		return Dmg{}, false
	}
	x := sp[1+r.Intn(len(sp)-1)]
	el := s[x[0]:x[2]]
	d := Dmg{Kind: "replace", Off: x[0], Len: x[2] - x[0]}
	text := ""
	switch []int{0, 1, 2, 3, 4, 5, 5, 5}[r.Intn(8)] {
	case 0: // dropped
	case 1: // copied elsewhere
		y := sp[r.Intn(len(sp))]
		d = Dmg{Kind: "insert", Off: []int{y[0], y[1], y[2]}[r.Intn(3)], Len: 0}
		text = el
	case 2: // the content stays without its element, or the tags without content
		if x[1] == x[2] {
			return Dmg{}, false
		}
		e := strings.LastIndex(el, "</")
		if r.OneIn(2) {
			text = el[x[1]-x[0] : e]
		} else {
			text = el[:x[1]-x[0]] + el[e:]
		}
	case 3, 4: // another name
		name := strings.FieldsFunc(el[1:], func(c rune) bool { return strings.ContainsRune(" />\n\t", c) })[0]
		local := name[strings.IndexByte(name, ':')+1:]
		nn := strings.TrimSuffix(name, local) + dmgNames[r.Intn(len(dmgNames))]
		text = "<" + nn + el[1+len(name):]
		if x[1] != x[2] {
			e := strings.LastIndex(text, "</"+name)
			if e < 0 {
				return Dmg{}, false
			}
			text = text[:e] + "</" + nn + text[e+2+len(name):]
		}
	case 5: // an attribute gone, renamed or emptied
		tag := el[:x[1]-x[0]]
		var at []int
		for i := 0; i+1 < len(tag); i++ {
			if tag[i] == '=' && tag[i+1] == '"' {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return Dmg{}, false
		}
		i := at[r.Intn(len(at))]
		b := strings.LastIndexAny(tag[:i], " \n\t") + 1
		e := strings.IndexByte(tag[i+2:], '"') + i + 3
		if b == 0 || e < i+3 {
			return Dmg{}, false
		}
		nw := ""
		switch r.Intn(5) {
		case 1:
			nw = tag[b:i] + "=\"\""
		case 3, 4:
			v := dmgValues[r.Intn(len(dmgValues))]
			if strings.HasSuffix(tag[:i], "Occurs") && r.OneIn(2) {
				v = []string{"9000000000000000000", "2000000000", "-9000000000000000000", "65536", "1000000", "18446744073709551616"}[r.Intn(6)]
			}
			if r.OneIn(3) { // another value of the document
				o := sp[r.Intn(len(sp))]
				ot := s[o[0]:o[1]]
				if i := strings.Index(ot, "=\""); i >= 0 {
					if e := strings.IndexByte(ot[i+2:], '"'); e >= 0 {
						v = ot[i+2 : i+2+e]
					}
				}
			}
			nw = tag[b:i] + "=\"" + v + "\""
		case 2:
			nw = []string{"name", "ref", "type", "base", "value", "memberTypes", "itemType", "maxOccurs", "schemaLocation", "use"}[r.Intn(10)] + tag[i:e]
		}
		d = Dmg{Kind: "replace", Off: x[0] + b, Len: e - b}
		text = nw
	}
	d.Text = bin(text)
	return d, true
}

func mkDamage(r *rt.Rng, b []byte) Dmg {
	if len(b) == 0 {
		return Dmg{Kind: "flip"}
	}
	if r.OneIn(2) { // damage that leaves tags balanced
		if d, ok := elemDamage(r, string(b)); ok {
			return d
		}
	}
	d := Dmg{Off: r.Intn(len(b)), Len: 1 + r.Intn(40), Arg: r.Intn(len(b))}
	if r.OneIn(4) {
		d.Len = []int{64, 128, 512}[r.Intn(3)]
		d.Off -= d.Off % d.Len
	}
	d.Kind = []string{"flip", "flip", "set", "zero", "drop", "drop", "dup", "swap", "trunc", "insert", "insert", "replace", "tag", "tag", "tag", "name"}[r.Intn(16)]
	switch d.Kind {
	case "set":
		d.Arg = int("<>/\"'&:= \x00\n0aA"[r.Intn(14)])
	case "insert", "replace":
		d.Text = bin(dmgTexts[r.Intn(len(dmgTexts))])
		if r.OneIn(2) { // at a tag
			if i := strings.Index(string(b[d.Off:]), "<"); i >= 0 {
				d.Off += i
			}
		}
	case "tag", "name":
		// work on whole tags: drop, duplicate, move or rename them
		s := string(b)
		i := strings.Index(s[d.Off:], "<")
		if i < 0 {
			d.Kind = "flip"
			break
		}
		i += d.Off
		j := strings.Index(s[i:], ">")
		if j < 0 {
			d.Kind = "flip"
			break
		}
		if d.Kind == "name" {
			k := strings.IndexAny(s[i:], ": ")
			e := strings.IndexAny(s[i+1:], " />")
			if e < 0 {
				d.Kind = "flip"
				break
			}
			st := i + 1
			if k >= 0 && k < e {
				st = i + k + 1
			}
			d = Dmg{Kind: "replace", Off: st, Len: i + 1 + e - st, Text: []bin{"element", "complexType", "simpleType", "attribute", "group", "attributeGroup", "union", "list", "restriction", "extension", "choice", "sequence", "charData", "schema", "import", "include", "enumeration", "documentation", "all", "any"}[r.Intn(20)]}
			break
		}
		d.Off, d.Len = i, j+1
		d.Kind = []string{"drop", "dup", "replace"}[r.Intn(3)]
		d.Text = bin(dmgTexts[r.Intn(len(dmgTexts))])
	}
	return d
}

func checkP13(sc *Scenario) *Fail {
	sc.Cfg.StepBudget = 8e6
	sc.Cfg.OpBudget = 200000
	o := execute(sc)
	nontrivial = true
	p := &sc.Procs[0]
	if b := bad(o.W.Procs[0]); b != "" {
		return failf("damage-"+kindOf(b), "damaged input: %s", b)
	}
	if p.Tasks != nil {
		for _, r := range o.Res[0][0] {
			if r.Panic != "" {
				return failf("damage-"+kindOf(r.Panic), "damaged input: panic: %s", firstLine(r.Panic))
			}
		}
		if o.W.Procs[0].Exited {
			return failf("damage-exit", "damaged input: the library terminated its host")
		}
	}
	return nil
}

// kindOf keeps the words of a message, so that shrinking does not drift.
func kindOf(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c == ' ' || c >= 'A' && c <= 'Z' || c == '.' || c == '*' {
			b.WriteRune(c)
		}
	}
	if b.Len() > 100 {
		return b.String()[:100]
	}
	return b.String()
}

// ---- P14

func genP14(r *rt.Rng, seed uint64) *Scenario {
	o := stdOpts(r)
	o.loose = true
	o.files = 1 + r.Intn(5)
	o.links = r.Intn(o.files + 2)
	p := mkPlan(r, o)
	sc := &Scenario{Prop: "P14", Files: p.fs}
	fr := rt.NewRng(seed, "faults")
	sc.Procs = []Proc{p.proc()}
	g := golden(sc.Files, sc.Procs[0])
	sc.Olds = mkOlds(fr, g.Outs, 8)
	wr := written(g.Trace)
	switch fr.Intn(5) {
	case 4:
		sc.Kind = "bad package"
		pl := *p
		pl.pkg = badPkg
		sc.Procs = []Proc{pl.proc()}
	case 0:
		sc.Kind = "cut short"
		f := *p.fs[fr.Intn(len(p.fs))]
		lo, hi := schemaSpan(f.Bytes())
		f.Cut = lo + fr.Intn(hi-lo)
		sc.Files = replaceFile(sc.Files, &f)
	case 1:
		sc.Kind = "write faults"
		sc.Cfg.Faults = pickFaults(fr, g.Trace, 1, func(e rt.Ev) bool { return wr[e.Path] && e.Op != "stat" && e.Op != "mkdir" })
	default:
		sc.Kind = "read faults"
		sc.Cfg.Faults = pickFaults(fr, g.Trace, 1+fr.Intn(2), func(e rt.Ev) bool { return !wr[e.Path] })
	}
	return sc
}

func checkP14(sc *Scenario) *Fail {
	p := &sc.Procs[0]
	var whole []*File
	for _, f := range sc.Files {
		c := *f
		c.Cut = 0
		whole = append(whole, &c)
	}
	gp := *p
	if sc.Kind == "bad package" { // what it would have written
		gp.Args = append([]string(nil), p.Args...)
		setArg(gp.Args, "-p", "pkg")
	}
	g := golden(whole, gp)
	if !g.OK {
		return nil
	}
	budget(sc, g.Steps, g.Ops)
	o := execute(sc)
	if bad(o.W.Procs[0]) != "" {
		return nil // P03
	}
	ok, text := o.CLI(0)
	if ok {
		return nil
	}
	nontrivial = len(sc.Olds) > 0
	old := map[string]string{}
	had := map[string]bool{}
	for _, e := range o.Before {
		if !e.Mode.IsDir() {
			old[e.Path] = e.Data
			had[e.Path] = true
		}
	}
	harmed := map[string]bool{}
	write := false
	for _, e := range o.W.Trace {
		if e.Err != "" && inLoc(e.Path, locOf(p)) {
			switch e.Op {
			case "create", "write", "close", "sync", "rename", "truncate", "seek", "chmod", "remove":
				harmed[e.Path] = true
				write = true
			}
		}
	}
	if sc.Kind == "bad package" { // the source it was writing could not be formatted
		for i := len(o.W.Trace) - 1; i >= 0; i-- {
			if e := o.W.Trace[i]; e.Op == "create" {
				harmed[e.Path] = true
				write = true
				break
			}
		}
	}
	after := inSnap(o.After[0])
	var ks []string
	for k := range g.Outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if harmed[k] {
			continue
		}
		have, is := after(k)
		if is && have == g.Outs[k] {
			continue
		}
		if !is && !had[k] {
			continue
		}
		if is && had[k] && have == old[k] {
			continue
		}
		if is {
			return failf("harmed", "the run failed (%s), and %s is neither as before nor complete: %s", firstLine(text), k, firstDiff(have, g.Outs[k]))
		}
		return failf("harmed", "the run failed (%s), and %s is gone", firstLine(text), k)
	}
	if !write && len(g.Outs) > 0 && !isDirIn(sc.Files, inOf(p)) {
		k := locOf(p) + exts[argOf(p.Args, "-l")]
		have, is := after(k)
		if is != had[k] || have != old[k] {
			return failf("overwritten", "the run failed while reading (%s; %s), but the previous output %s was changed", firstLine(text), fired(o.W), k)
		}
	}
	return nil
}

// ---- P15

func genP15(r *rt.Rng, seed uint64) *Scenario {
	g := newGen(r)
	sc := &Scenario{Prop: "P15"}
	o := setOpts{dir: cwd + "/in", files: 2 + r.Intn(4), comps: 4, include: r.Intn(6), subdirs: r.OneIn(2), style: r.OneIn(3), docs: r.OneIn(3), enc: r.OneIn(5)}
	o.links = r.Intn(o.files * 2)
	o.odd, o.via, o.missing, o.spaces = r.OneIn(4), r.OneIn(12), r.OneIn(6), []int{0, 0, 0, 1, 2}[r.Intn(5)]
	sc.Files = g.set(o)
	if r.OneIn(2) {
		shareNames(g, sc.Files)
	}
	if r.OneIn(2) { // prefixes that mean different things in different files
		samePrefixes(r, sc.Files)
	}
	if r.OneIn(3) { // types of one name
		sameTypes(g, sc.Files)
	}
	pl := &plan{fs: sc.Files, lang: g.pick(langs), in: cwd + "/in", out: cwd + "/out", pkg: g.pick([]string{"", "mypkg"})}
	sc.Procs = []Proc{pl.proc()}
	switch r.Intn(3) {
	case 0:
		sc.Kind = "neighbours"
		h := newGen(rt.NewRng(seed, "extra"))
		h.used = g.used
		sc.Extra = h.set(setOpts{dir: cwd + "/in/" + []string{"AA", "mm", "zz"}[r.Intn(3)], files: 1 + r.Intn(3), links: r.Intn(3), comps: 4})
		for _, f := range sc.Extra {
			if f.Doc.TNS != "" {
				f.Doc.TNS = "urn:extra" + f.Doc.TNS
			}
			for i := range f.Doc.Refs {
				if f.Doc.Refs[i].NS != "" {
					f.Doc.Refs[i].NS = "urn:extra" + f.Doc.Refs[i].NS
				}
			}
		}
		if r.OneIn(2) {
			copyNames(r, sc.Extra, sc.Files)
		}
	case 1:
		sc.Kind = "alone"
	case 2:
		sc.Kind = "importer"
	}
	return sc
}

// copyNames makes unrelated files define names of the others, differently.
func copyNames(r *rt.Rng, extra, fs []*File) {
	for _, e := range extra {
		f := fs[r.Intn(len(fs))]
		for _, c := range f.Doc.Comps {
			if c.Alias != "" {
				P := e.Doc.P
				k := Comp{Text: fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction base=\"%s%s\"/></%ssimpleType>\n", P, c.Alias, P, P, append(strong, "gYear")[r.Intn(len(strong)+1)], P)}
				switch r.Intn(5) {
				case 0:
					k.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%sattribute name=\"%sa\" type=\"%sint\"/></%scomplexType>\n", P, c.Alias, P, c.Alias, P, P)
				case 1:
					k.Text = fmt.Sprintf("  <%selement name=\"%s\" type=\"%sgYear\"/>\n", P, c.Alias, P)
				case 2:
					k.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%slist itemType=\"%sint\"/></%ssimpleType>\n", P, c.Alias, P, P, P)
				}
				if r.OneIn(3) {
					e.Doc.Comps = append([]Comp{k}, e.Doc.Comps...)
				} else {
					e.Doc.Comps = append(e.Doc.Comps, k)
				}
			}
		}
	}
}

// sameTypes makes files define a type of the same name, each its own way, and
// use it.
func sameTypes(g *gen, fs []*File) {
	t := g.tok()
	for _, f := range fs {
		if f.Doc == nil || g.r.OneIn(3) {
			continue
		}
		P, b := f.Doc.P, g.pick(strong)
		def := Comp{Text: fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction base=\"%s%s\"/></%ssimpleType>\n", P, t, P, P, b, P)}
		x := &docGen{g: g, d: &Doc{P: P}, path: f.Path}
		x.pair(typeRef{q: f.Doc.Self + t, base: b})
		cs := append(append([]Comp(nil), def), x.d.Comps...)
		if g.r.OneIn(2) {
			f.Doc.Comps = append(cs, f.Doc.Comps...)
		} else {
			f.Doc.Comps = append(f.Doc.Comps, cs...)
		}
	}
}

// samePrefixes renames import prefixes so that different documents bind the
// same prefix to different namespaces.
func samePrefixes(r *rt.Rng, fs []*File) {
	for _, f := range fs {
		n := 0
		for i := range f.Doc.Refs {
			rf := &f.Doc.Refs[i]
			if rf.Prefix == "" || rf.Include {
				continue
			}
			np := fmt.Sprintf("p%d", n)
			n++
			for k := range f.Doc.Comps {
				f.Doc.Comps[k].Text = strings.ReplaceAll(f.Doc.Comps[k].Text, "\""+rf.Prefix+":", "\""+np+":")
				f.Doc.Comps[k].Text = strings.ReplaceAll(f.Doc.Comps[k].Text, " "+rf.Prefix+":", " "+np+":")
			}
			rf.Prefix = np
		}
	}
}

func checkP15(sc *Scenario) *Fail {
	p := sc.Procs[0]
	lang := argOf(p.Args, "-l")
	base := golden(sc.Files, p)
	if !base.OK {
		return nil
	}
	exp := expected(sc.Files, &p)
	var ks []string
	for k := range exp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if fl := tokensMissing(sc.Files, &p, inMap(base.Outs)); fl != nil {
		return fl
	}
	switch sc.Kind {
	case "neighbours":
		nontrivial = true
		all := append(append([]*File(nil), sc.Files...), sc.Extra...)
		o := golden(all, p)
		if !o.OK {
			return failf("neighbours", "adding unrelated schemas makes the run fail: %s", o.Err)
		}
		for _, k := range ks {
			if o.Outs[exp[k]] != base.Outs[exp[k]] {
				return failf("neighbours", "the %s output of %s depends on unrelated schemas in the run: %s", lang, k, firstDiff(o.Outs[exp[k]], base.Outs[exp[k]]))
			}
		}
	case "alone":
		nontrivial = len(ks) > 1
		for _, k := range ks {
			q := p
			q.Args = append([]string(nil), p.Args...)
			q.Args[1] = k
			q.Args[3] = cwd + "/solo/x"
			s := golden(sc.Files, q)
			if !s.OK {
				return failf("alone", "%s is processed in a directory run, but alone it fails: %s", k, s.Err)
			}
			if have := s.Outs[cwd+"/solo/x"+exts[lang]]; have != base.Outs[exp[k]] {
				return failf("alone", "the %s output of %s alone and in a directory run differ: %s", lang, k, firstDiff(have, base.Outs[exp[k]]))
			}
		}
	case "importer":
		for _, k := range ks {
			dep := path.Join(cwd+"/out", k) + exts[lang]
			have, ok := base.Outs[dep]
			if !ok {
				continue
			}
			nontrivial = true
			if have != base.Outs[exp[k]] {
				return failf("importer", "the %s output of %s generated on behalf of an importer and on its own differ: %s", lang, k, firstDiff(have, base.Outs[exp[k]]))
			}
		}
	}
	return nil
}

func init() {
	for _, p := range []*Prop{
		{"P01", genP01, checkP01, "a schema set, a command or library call, faults on the operations that touch its outputs, or a full disk; non-trivial: a fault took effect"},
		{"P02", genP02, checkP02, "a schema set, and: no fault, a document cut short inside its schema element, or faults on the operations that touch the inputs; non-trivial: a fault took effect, a cut document was read, or several files"},
		{"P03", genP03, checkP03, "a schema set, a command or a session of library calls, faults on any operation, few handles or a full disk; non-trivial: a fault took effect"},
		{"P04", genP04, checkP04, "a schema set and a way its bytes are delivered, encoded or padded; non-trivial: another delivery, encoding or size than the reference"},
		{"P05", genP05, checkP05, "a schema set and three other environments (hash order, directory order, clock, time stamps, pid, host, environment, randomness); non-trivial: outputs exist"},
		{"P06", genP06, checkP06, "2-4 threads with library calls on shared inputs and a schedule; non-trivial: at least two switches"},
		{"P07", genP07, checkP07, "a session of library calls with faults that stop; non-trivial: more than one call"},
		{"P08", genP08, checkP08, "a command killed (or losing power) at up to two places, over older outputs, then run to completion; non-trivial: a crash took place or older outputs exist"},
		{"P09", genP09, checkP09, "a command among unrelated files with faults, a crash or a full disk; non-trivial: unrelated files exist or a fault took effect"},
		{"P10", genP10, checkP10, "a directory run over files of odd names and kinds, with faults on listing, examining or processing"},
		{"P11", genP11, checkP11, "a session of library calls with faults and few handles; non-trivial: a fault took effect or more than ten calls"},
		{"P12", genP12, checkP12, "a reference graph (diamonds, rings, random), with and without faults; non-trivial: there are references"},
		{"P13", genP13, checkP13, "schemas with damaged bytes"},
		{"P14", genP14, checkP14, "a command over older outputs that fails on reading, on a cut document or on writing; non-trivial: it failed and older outputs exist"},
		{"P15", genP15, checkP15, "a directory run compared with runs with unrelated schemas, of each schema alone, and with the outputs generated for importers; non-trivial: there was something to compare"},
	} {
		props[p.ID] = p
	}
}

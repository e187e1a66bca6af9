package engine

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"verifsim/rt"
)

// Fail is a violation found in a scenario.
type Fail struct {
	Sig string // what kind of violation, stable under shrinking
	Msg string
}

func failf(sig, f string, a ...any) *Fail { return &Fail{sig, fmt.Sprintf(f, a...)} }

// Prop is one property: how scenarios are made and judged.
type Prop struct {
	ID    string
	Gen   func(r *rt.Rng, seed uint64) *Scenario
	Check func(sc *Scenario) *Fail
	Rule  string
}

var props = map[string]*Prop{}

// nontrivial is set by a check when the scenario exercised what it is about.
var nontrivial bool

var langs = []string{"Go", "TypeScript", "C", "Java", "Rust"}
var exts = map[string]string{"Go": ".go", "TypeScript": ".ts", "C": ".h", "Java": ".java", "Rust": ".rs"}

const cwd = "/work"

// plan is a command on a set of schemas.
type plan struct {
	fs   []*File
	in   string // as given
	out  string
	lang string
	pkg  string
	dir  bool
	main *File

	noOut bool // the command is given no output location
}

func (p *plan) args() []string {
	a := []string{"-i", p.in, "-o", p.out, "-l", p.lang}
	if p.noOut {
		a = []string{"-l", p.lang, "-i", p.in}
	}
	if p.pkg != "" {
		a = append(a, "-p", p.pkg)
	}
	return a
}

func (p *plan) proc() Proc { return Proc{Cwd: cwd, Args: p.args()} }

// argOf reads an option of a command line.
func argOf(a []string, name string) string {
	for i := 0; i+1 < len(a); i++ {
		if a[i] == name {
			return a[i+1]
		}
	}
	return ""
}

// setArg changes an option of a command line.
func setArg(a []string, name, v string) {
	for i := 0; i+1 < len(a); i++ {
		if a[i] == name {
			a[i+1] = v
		}
	}
}

// locOf is the output location of a command.
func locOf(p *Proc) string {
	o := argOf(p.Args, "-o")
	if o == "" {
		o = "xgen_out" // documented
	}
	return absIn(p.Cwd, o)
}

// inOf is the input path of a command.
func inOf(p *Proc) string { return absIn(p.Cwd, argOf(p.Args, "-i")) }

func findFile(fs []*File, p string) *File {
	for _, f := range fs {
		if f.Path == p {
			return f
		}
	}
	return nil
}

// isDirIn reports whether the path is a directory of the files.
func isDirIn(fs []*File, p string) bool {
	for _, f := range fs {
		if strings.HasPrefix(f.Path, strings.TrimSuffix(p, "/")+"/") || f.Dir && f.Path == p {
			return true
		}
	}
	return false
}

// expected maps each input file of a command to its output file.
func expected(fs []*File, p *Proc) map[string]string {
	m := map[string]string{}
	in, out, ext := inOf(p), locOf(p), exts[argOf(p.Args, "-l")]
	if !isDirIn(fs, in) {
		m[in] = withExt(out, ext)
		return m
	}
	for _, f := range fs {
		if !f.Dir && f.Link == "" && strings.HasPrefix(f.Path, in+"/") {
			m[f.Path] = withExt(path.Join(out, strings.TrimPrefix(f.Path, in)), ext)
		}
	}
	return m
}

// withExt adds an extension, unless the name has it already.
func withExt(p, ext string) string {
	if path.Ext(p) == ext {
		return p
	}
	return p + ext
}

// closure is the set of schema files reachable from a file.
func closure(fs []*File, from string) map[string]bool {
	m := map[string]bool{}
	var rec func(p string)
	rec = func(p string) {
		f := findFile(fs, p)
		if f == nil || m[p] {
			return
		}
		m[p] = true
		if f.Doc != nil {
			for _, r := range f.Doc.Refs {
				if r.Path != "" {
					rec(r.Path)
				}
			}
		}
	}
	rec(from)
	return m
}

// nesting is the length of the longest simple path of references from a file.
func nesting(fs []*File, from string) int {
	on := map[string]bool{}
	n := 0
	var rec func(p string) int
	rec = func(p string) int {
		f := findFile(fs, p)
		n++
		if f == nil || on[p] || n > 20000 {
			return 0
		}
		on[p] = true
		best := 0
		if f.Doc != nil {
			for _, r := range f.Doc.Refs {
				if r.Path != "" {
					if d := rec(r.Path); d > best {
						best = d
					}
				}
			}
		}
		on[p] = false
		return best + 1
	}
	d := rec(from)
	if n > 20000 {
		return len(fs)
	}
	return d
}

// ---- plans

type planOpts struct {
	setOpts
	dirOnly, singleOnly bool
	plain               bool // absolute, simple paths
	loose               bool // the output location may be the default one or oddly written
}

func mkPlan(r *rt.Rng, o planOpts) *plan {
	g := newGen(r)
	if o.dir == "" {
		o.dir = cwd + "/in"
	}
	p := &plan{lang: g.pick(langs)}
	p.fs = g.set(o.setOpts)
	p.dir = o.dirOnly || !o.singleOnly && r.OneIn(2)
	p.pkg = g.pick([]string{"", "", "pkg", "other"})
	p.in = g.pick([]string{o.dir, o.dir, "in", "in/"})
	p.out = g.pick([]string{cwd + "/out", cwd + "/out", "out", "gen/deep/out", "/srv/gen"})
	if o.plain || o.dir != cwd+"/in" {
		p.in = o.dir
		p.out = cwd + "/out"
	}
	if !p.dir {
		// later files refer to earlier ones: prefer them
		i := len(p.fs) - 1 - r.Intn((len(p.fs)+1)/2)
		p.main = p.fs[i]
		abs := p.main.Path
		p.in = abs
		if !o.plain && r.OneIn(3) && strings.HasPrefix(abs, cwd+"/") {
			p.in = strings.TrimPrefix(abs, cwd+"/")
		}
		p.out += "/" + g.pick([]string{"schema", "x.gen", path.Base(abs)})
		if !o.plain && r.OneIn(6) { // the name of the file to generate
			p.out = strings.TrimSuffix(p.out, exts[p.lang]) + exts[p.lang]
		}
	}
	if o.loose && r.OneIn(12) {
		p.out, p.noOut = "xgen_out", true
	} else if o.loose && p.dir && r.OneIn(8) {
		p.out += g.pick([]string{"/", "/."})
	}
	return p
}

func stdOpts(r *rt.Rng) planOpts {
	o := planOpts{setOpts: setOpts{files: 1 + r.Intn(4), comps: 3, include: r.Intn(8), subdirs: r.OneIn(2), style: r.OneIn(2), docs: r.OneIn(2), enc: r.OneIn(4)}}
	o.links = r.Intn(o.files * 2)
	o.missing = r.OneIn(6)
	o.spaces = []int{0, 0, 1, 2}[r.Intn(4)]
	o.shuffle = r.OneIn(3)
	if r.OneIn(60) {
		o.big = 40 + r.Intn(160)
	}
	return o
}

// ---- faults

var errsOf = map[string][]string{
	"stat":     {"EACCES", "EIO", "ESTALE", "ELOOP", "ENOMEM", "ETIMEDOUT"},
	"lstat":    {"EACCES", "EIO", "ESTALE", "ENOMEM", "ETIMEDOUT"},
	"open":     {"EACCES", "EIO", "EMFILE", "ENFILE", "ESTALE", "EPERM", "ENOMEM"},
	"read":     {"EIO", "ESTALE", "EISDIR", "ENOMEM", "ETIMEDOUT", "ECONNRESET"},
	"readdir":  {"EIO", "ESTALE", "ENOMEM", "EACCES"},
	"create":   {"EACCES", "ENOSPC", "EDQUOT", "EROFS", "EMFILE", "ENFILE", "EIO", "ETXTBSY", "EPERM"},
	"mkdir":    {"EACCES", "ENOSPC", "EROFS", "EDQUOT", "EIO", "EPERM"},
	"write":    {"ENOSPC", "EIO", "EDQUOT", "EFBIG", "ETIMEDOUT"},
	"close":    {"EIO", "ENOSPC", "EDQUOT"},
	"sync":     {"EIO", "ENOSPC", "EDQUOT"},
	"truncate": {"EIO", "ENOSPC"},
	"rename":   {"EIO", "EACCES", "ENOSPC", "EROFS"},
	"remove":   {"EIO", "EACCES", "EROFS"},
	"chmod":    {"EIO", "EPERM", "EROFS"},
	"chtimes":  {"EIO", "EPERM", "EROFS"},
	"seek":     {"EIO"},
	"link":     {"EIO", "EPERM"},
	"symlink":  {"EIO", "EPERM"},
	"readlink": {"EIO", "EACCES"},
}

func isOp(e rt.Ev) bool { return errsOf[e.Op] != nil }

// written is the set of paths a trace wrote or renamed to.
func written(tr []rt.Ev) map[string]bool {
	m := map[string]bool{}
	for _, e := range tr {
		switch e.Op {
		case "create", "write", "rename", "mkdir", "truncate", "sync", "chmod", "remove", "rename-from", "link", "symlink":
			m[e.Path] = true
		}
	}
	return m
}

// faultAt makes a fault that hits the i-th event of a trace.
func faultAt(r *rt.Rng, tr []rt.Ev, i int) rt.Fault {
	e := tr[i]
	n := 0
	for _, x := range tr[:i+1] {
		if x.Op == e.Op && x.Path == e.Path {
			n++
		}
	}
	es := errsOf[e.Op]
	f := rt.Fault{Proc: -1, Op: e.Op, Path: e.Path, Nth: n, Err: es[r.Intn(len(es))]}
	soft := r.OneIn(12)
	switch r.Intn(10) {
	case 0:
		f.Count = 2
	case 1, 2, 3:
		f.Count = -1
	}
	f.Part = []int{0, 1, 500, 999, 1000, r.Intn(1000)}[r.Intn(6)]
	if f.Part == 1000 && e.Op != "write" {
		f.Part = 900
	}
	if soft { // these pass
		f.Err = []string{"EINTR", "EAGAIN", "EBUSY", "EINTR"}[r.Intn(4)]
		if f.Count < 0 {
			f.Count = 1 + r.Intn(3)
		}
	}
	if r.OneIn(8) { // anywhere of this kind
		f.Path = ""
		n = 0
		for _, x := range tr[:i+1] {
			if x.Op == e.Op {
				n++
			}
		}
		f.Nth = n
	}
	return f
}

// pickFaults places up to n faults on the operations of a trace that qualify.
func pickFaults(r *rt.Rng, tr []rt.Ev, n int, ok func(e rt.Ev) bool) []rt.Fault {
	var idx []int
	byKind := map[string][]int{}
	for i, e := range tr {
		if isOp(e) && ok(e) {
			idx = append(idx, i)
			byKind[e.Op] = append(byKind[e.Op], i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	var kinds []string
	for k := range byKind {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	var out []rt.Fault
	for i := 0; i < n; i++ {
		if r.OneIn(2) {
			l := byKind[kinds[r.Intn(len(kinds))]]
			out = append(out, faultAt(r, tr, l[r.Intn(len(l))]))
		} else {
			out = append(out, faultAt(r, tr, idx[r.Intn(len(idx))]))
		}
	}
	if r.OneIn(6) { // and some latency
		e := tr[idx[r.Intn(len(idx))]]
		out = append(out, rt.Fault{Proc: -1, Op: e.Op, Path: e.Path, Nth: 1, Count: -1, Delay: int64(1+r.Intn(1000)) * 1e9})
	}
	return out
}

func hard(w *rt.World) int {
	n := 0
	for k, v := range w.Fired {
		if !strings.HasPrefix(k, "delay:") {
			n += v
		}
	}
	return n
}

func budget(sc *Scenario, steps int64, ops int) {
	sc.Cfg.StepBudget = 50 * steps
	if sc.Cfg.StepBudget < 2e6 {
		sc.Cfg.StepBudget = 2e6
	}
	sc.Cfg.OpBudget = 50*ops + 20000
}

// olds makes earlier contents for output files.
func mkOlds(r *rt.Rng, gold map[string]string, share int) []*File {
	var ks []string
	for k := range gold {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*File
	for _, k := range ks {
		if r.Intn(10) >= share {
			continue
		}
		g := gold[k]
		var b string
		switch r.Intn(7) {
		case 0:
			b = ""
		case 1:
			b = "short"
		case 2:
			b = strings.Repeat("older and longer content of this file\n", len(g)/30+2)
		case 3:
			b = g[:len(g)/2]
		case 4:
			b = g + "\n// leftover tail " + strings.Repeat("x", r.Intn(9000)) + "\n"
		case 5:
			b = strings.Replace(g, "Qz", "Old", -1)
		case 6:
			b = strings.Repeat("\x00", len(g))
		}
		out = append(out, &File{Path: k, Raw: []byte(b)})
	}
	return out
}

// unrelated makes files that have nothing to do with a run.
func mkUnrelated(r *rt.Rng, loc, ext string) []*File {
	loc = strings.TrimSuffix(loc, ext)
	c := []*File{
		{Path: cwd + "/README.md", Raw: []byte("readme")},
		{Path: "/etc/passwd", Raw: []byte("root:x:0:0")},
		{Path: cwd + "/in.go", Raw: []byte("package in")},
		{Path: path.Dir(loc) + "/notes.txt", Raw: []byte("notes")},
		{Path: loc + "/keep.me", Raw: []byte("keep")},
		{Path: loc + "/sub/keep.go", Raw: []byte("package keep")},
		{Path: loc + "/other.xsd.go", Raw: []byte("package other")},
		{Path: loc + "/.hidden", Raw: []byte("h")},
		{Path: loc + "/a.tmp", Raw: []byte("tmp")},
		{Path: cwd + "/xgen_out/x.go", Raw: []byte("package x")},
		{Path: "/lib/base.xsd.go", Raw: []byte("package base")},
		{Path: loc + "/gone.xsd" + ext, Raw: []byte("// Code generated by xgen. DO NOT EDIT.\n\n// of a schema that is gone\n")},
		{Path: loc + "/mine" + ext, Raw: []byte("// mine\n")},
		{Path: loc + "/empty.xsd" + ext},
		{Path: loc + "/sub/mine.xsd" + ext, Raw: []byte("// mine\n")},
		{Path: loc + "/a.xsd" + ext + ".bak", Raw: []byte("// before\n")},
		{Path: path.Dir(loc) + "/gone" + ext, Raw: []byte("// Code generated by xgen. DO NOT EDIT.\n")},
		{Path: loc + "/tool.sh", Raw: []byte("#!/bin/sh"), Mode: 0o755},
		{Path: loc + "/secret", Raw: []byte("s"), Mode: 0o600},
		{Path: path.Dir(loc), Dir: true, Mode: 0o700},
		{Path: loc + "/sub", Dir: true, Mode: 0o750},
		{Path: loc, Dir: true, Mode: []int{0o555, 0o500, 0o775, 0o700}[r.Intn(4)]},
		{Path: cwd + "/in", Dir: true, Mode: 0o711},
	}
	var out []*File
	for _, f := range c {
		if r.OneIn(2) {
			out = append(out, f)
		}
	}
	return out
}

// covered checks that every named declaration of the inputs shows up in the
// output of its file.
func tokensMissing(fs []*File, p *Proc, have func(string) (string, bool)) *Fail {
	exp := expected(fs, p)
	var ks []string
	for k := range exp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	lang := argOf(p.Args, "-l")
	for _, k := range ks {
		f := findFile(fs, k)
		if f == nil {
			continue
		}
		text, ok := have(exp[k])
		if !ok {
			return failf("missing-output", "success reported, but %s has no output at %s", k, exp[k])
		}
		if f.Doc == nil || len(f.Damage) > 0 || f.Cut > 0 {
			continue
		}
		if fl := docShows(f, text, lang, argOf(p.Args, "-p")); fl != nil {
			return fl
		}
	}
	return nil
}

// clause is the package clause of Go and Java code.
var clause = regexp.MustCompile(`(?m)^package ([^ ;\r\n]+)[ ;\r]*$`)

func docShows(f *File, text, lang, pkg string) *Fail {
	if m := clause.FindStringSubmatch(text); pkg != "" && (lang == "Go" || lang == "Java") && (m == nil || m[1] != pkg) {
		return failf("package", "success reported, but the %s output of %s is not of package %s", lang, f.Path, pkg)
	}
	n := norm(text)
	for _, c := range f.Doc.Comps {
		for _, t := range c.Tokens {
			if !strings.Contains(n, norm(t)) {
				return failf("lost-declaration", "success reported, but the %s output of %s does not mention %q, declared in\n%s", lang, f.Path, t, c.Text)
			}
		}
		for _, k := range c.Near {
			if !near(text, lang, k) {
				return failf("lost-part", "success reported, but the %s output of %s does not mention %q with %q (%s) for\n%s", lang, f.Path, k.B, k.A, k.Kind, c.Text)
			}
		}
		for _, pr := range c.Pairs {
			a, b := memberLines(text, pr[0]), memberLines(text, pr[1])
			if a != b {
				return failf("weaker-type", "in the %s output of %s, members %s and %s must have the same type, but\n  %s\n  %s\nfor\n%s", lang, f.Path, pr[0], pr[1], a, b, c.Text)
			}
		}
	}
	return nil
}

// refPrefix is the prefix of a reference, as it shows up in generated names.
var refPrefix = regexp.MustCompile(`\b_?(?:n[-_.]?[0-9]+_?x?|p[0-9]+|n_?s_?p_?f_?x|tns|t)[-_:.]?@`)

// depsMissing checks that every imported schema whose definitions a schema of
// the command uses has an output of its own, with all its declarations.
func depsMissing(fs []*File, p *Proc, after []rt.Entry) *Fail {
	lang := argOf(p.Args, "-l")
	loc := locOf(p)
	var mains []string
	for k := range expected(fs, p) {
		mains = append(mains, k)
	}
	sort.Strings(mains)
	for _, m := range mains {
		seen := map[string]bool{m: true}
		var rec func(k string) *Fail
		rec = func(k string) *Fail {
			f := findFile(fs, k)
			if f == nil || f.Doc == nil {
				return nil
			}
			for _, c := range f.Doc.Comps {
				for _, u := range c.Uses {
					if seen[u] || !imports(f, u) {
						continue
					}
					seen[u] = true
					d := findFile(fs, u)
					if d == nil || d.Doc == nil {
						continue
					}
					want := "/" + withExt(path.Base(u), exts[lang])
					var why *Fail
					ok := false
					for _, e := range after {
						if e.Mode.IsDir() || !inLoc(e.Path, loc) && !strings.HasPrefix(e.Path, path.Dir(loc)+"/") || !strings.HasSuffix(e.Path, want) {
							continue
						}
						if fl := docShows(d, e.Data, lang, argOf(p.Args, "-p")); fl != nil {
							why = fl
							continue
						}
						ok = true
					}
					if !ok && why == nil {
						why = failf("missing-output", "success reported, but %s, imported by %s, has no output named %s below %s", u, k, want, loc)
					}
					if !ok {
						return why
					}
					if fl := rec(u); fl != nil {
						return fl
					}
				}
			}
			return nil
		}
		if fl := rec(m); fl != nil {
			return fl
		}
	}
	return nil
}

func imports(f *File, p string) bool {
	for _, r := range f.Doc.Refs {
		if r.Path == p && !r.Include {
			return true
		}
	}
	return false
}

// memberLines collects the lines that mention a token, with the token blanked.
func memberLines(text, tok string) string {
	var out []string
	low := strings.ToLower(tok)
	for _, l := range strings.Split(text, "\n") {
		ll := strings.ToLower(l)
		if !strings.Contains(ll, low) {
			continue
		}
		l = strings.Join(strings.Fields(strings.ReplaceAll(ll, low, "@")), " ")
		out = append(out, refPrefix.ReplaceAllString(l, "@"))
	}
	return strings.Join(out, " | ")
}

// blank separates the blocks of generated code.
var blank = regexp.MustCompile(`\n[ \t\r]*\n`)

// silent are parts that the generators do not show.
var silent = map[string]bool{"C base": true, "C doc element": true, "Java doc attribute": true, "Java doc element": true, "Java doc list": true, "Rust doc union": true}

// near tells whether two names are in one line or one block of the generated
// code.
func near(text, lang string, k Near) bool {
	if silent[lang+" "+k.Kind] {
		return true
	}
	var parts []string
	if k.Kind == "line" {
		parts = strings.Split(text, "\n")
	} else {
		parts = blank.Split(text, -1)
	}
	a, b := norm(k.A), norm(k.B)
	for _, p := range parts {
		if n := norm(p); strings.Contains(n, a) && strings.Contains(n, b) {
			return true
		}
	}
	return false
}

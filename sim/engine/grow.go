package engine

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/rt"
)

// grow adds declarations of their own to every document: what is generated
// for the others must not change with the size of the whole.
func grow(fs []*File, n, w int, front bool) []*File {
	var out []*File
	for _, f := range fs {
		if f.Doc == nil {
			out = append(out, f)
			continue
		}
		d := *f.Doc
		P := d.P
		var add []Comp
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("Qzz%05d", i)
			if i == n-1 {
				t += strings.Repeat("z", w)
			}
			c := Comp{Tokens: []string{t}}
			switch i % 3 {
			case 0:
				c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction base=\"%sstring\"/></%ssimpleType>\n", P, t, P, P, P)
			case 1:
				c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%ssequence><%selement name=\"%sm\" type=\"%sstring\"/></%ssequence></%scomplexType>\n", P, t, P, P, t, P, P, P)
			case 2:
				c.Text = fmt.Sprintf("  <%selement name=\"%s\" type=\"%sstring\"/>\n", P, t, P)
			}
			add = append(add, c)
		}
		if front {
			d.Comps = append(add, d.Comps...)
		} else {
			d.Comps = append(append([]Comp(nil), d.Comps...), add...)
		}
		g := *f
		g.Doc = &d
		out = append(out, &g)
	}
	return out
}

// boundaries are sizes at which buffers, blocks and limits of all kinds end.
var boundaries = []int{512, 1024, 4096, 4096, 8192, 32768, 65536}

// mkGrown chooses how much to add, often so that the size of an output comes
// close to a boundary.
func mkGrown(r *rt.Rng, sc *Scenario) {
	sc.Kind = "grown"
	sc.Param = map[string]int{"n": 1 + r.Intn(30), "front": r.Intn(2)}
	if r.OneIn(12) {
		sc.Param["n"] = 100 + r.Intn(300)
	}
	if m := 400 / (len(sc.Files) * len(sc.Files)); sc.Param["n"] > m {
		sc.Param["n"] = m + 1
	}
	if r.OneIn(4) {
		return
	}
	size := func(w int) int {
		g := golden(grow(sc.Files, sc.Param["n"], w, sc.Param["front"] == 1), sc.Procs[0])
		var ks []string
		for k := range g.Outs {
			ks = append(ks, k)
		}
		if len(ks) == 0 {
			return 0
		}
		sort.Strings(ks)
		return len(g.Outs[ks[len(ks)/2]])
	}
	a, b := size(0), size(1)
	if a == 0 || b <= a {
		return
	}
	bd := boundaries[r.Intn(len(boundaries))]
	want := (a/bd+1)*bd - 12 + r.Intn(25)
	if w := (want - a) / (b - a); w > 0 && w < 3000 {
		sc.Param["w"] = w
	}
}

func checkGrown(sc *Scenario) *Fail {
	nontrivial = true
	p := sc.Procs[0]
	fs := grow(sc.Files, sc.Param["n"], sc.Param["w"], sc.Param["front"] == 1)
	small, big := golden(sc.Files, p), golden(fs, p)
	if !small.OK {
		return nil
	}
	if big.W.Procs[0].Budget != "" {
		nontrivial = false
		return nil
	}
	if !big.OK {
		return failf("grown-fails", "with %d declarations more, generation fails: %s", sc.Param["n"], big.Err)
	}
	if p.Tasks == nil {
		if fl := tokensMissing(fs, &p, inMap(big.Outs)); fl != nil {
			return fl
		}
	}
	for _, k := range sortedKeys(small.Outs) {
		have, ok := big.Outs[k]
		if !ok {
			return failf("grown-lost", "with %d declarations more, there is no output %s", sc.Param["n"], k)
		}
		n := map[string]int{}
		for _, l := range strings.Split(have, "\n") {
			n[spaced(l)]++
		}
		for _, l := range strings.Split(small.Outs[k], "\n") {
			s := spaced(l)
			if strings.HasPrefix(s, "import ") {
				continue
			}
			if n[s]--; n[s] < 0 {
				return failf("grown-lost", "with %d declarations more (%d bytes), %s lacks a line it has without them: %q", sc.Param["n"], len(have), k, l)
			}
		}
	}
	return nil
}

func spaced(l string) string { return strings.Join(strings.Fields(l), " ") }

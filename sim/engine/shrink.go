package engine

import (
	"encoding/json"
	"strings"
	"time"
)

func clone(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// named is the set of paths the processes mention.
func named(sc *Scenario) map[string]bool {
	m := map[string]bool{}
	for i := range sc.Procs {
		p := &sc.Procs[i]
		for _, f := range p.Swap {
			m[f.Path] = true
		}
		if p.Tasks == nil {
			m[inOf(p)] = true
		}
		for _, t := range p.Tasks {
			for _, c := range t {
				for _, f := range c.Swap {
					m[f.Path] = true
				}
				m[absIn(p.Cwd, c.File)] = true
			}
		}
	}
	return m
}

// dropFile removes a file and what refers to it.
func dropFile(sc *Scenario, i int) bool {
	f := sc.Files[i]
	if named(sc)[f.Path] {
		return false
	}
	sc.Files = append(sc.Files[:i], sc.Files[i+1:]...)
	for _, x := range sc.Files {
		if x.Doc == nil {
			continue
		}
		var rs []Ref
		for _, r := range x.Doc.Refs {
			if r.Path != f.Path {
				rs = append(rs, r)
			}
		}
		x.Doc.Refs = rs
		var cs []Comp
		for _, c := range x.Doc.Comps {
			uses := false
			for _, u := range append(c.Far[:len(c.Far):len(c.Far)], c.Uses...) {
				uses = uses || u == f.Path
			}
			if !uses {
				cs = append(cs, c)
			}
		}
		x.Doc.Comps = cs
	}
	return len(sc.Files) > 0
}

// dropComp removes a component unless another one mentions its name.
func dropComp(sc *Scenario, d *Doc, i int) bool {
	c := d.Comps[i]
	if c.Alias+c.Name != "" {
		for _, f := range sc.Files {
			if f.Doc == nil {
				continue
			}
			for k := range f.Doc.Comps {
				if !(f.Doc == d && k == i) && strings.Contains(f.Doc.Comps[k].Text, c.Alias+c.Name) {
					return false
				}
			}
		}
	}
	d.Comps = append(d.Comps[:i], d.Comps[i+1:]...)
	return true
}

// shrink makes a failing scenario smaller while it fails in the same way.
func shrink(sc *Scenario, fl *Fail, limit time.Duration) (*Scenario, *Fail, int) {
	p := props[sc.Prop]
	stop := time.Now().Add(limit)
	tries := 0
	try := func(edit func(c *Scenario) bool) bool {
		if time.Now().After(stop) || tries > 3000 {
			return false
		}
		c := clone(sc)
		if !edit(c) {
			return false
		}
		tries++
		goldCache = map[uint64]*Gold{}
		f := p.Check(clone(c))
		if f == nil || f.Sig != fl.Sig {
			return false
		}
		sc, fl = c, f
		return true
	}
	for again := true; again; {
		again = false
		for i := len(sc.Cfg.Faults) - 1; i >= 0; i-- {
			again = try(func(c *Scenario) bool {
				c.Cfg.Faults = append(c.Cfg.Faults[:i], c.Cfg.Faults[i+1:]...)
				return true
			}) || again
		}
		for n := len(sc.Cfg.Preempts); n > 0; n /= 2 {
			for i := 0; i+n <= len(sc.Cfg.Preempts); {
				if try(func(c *Scenario) bool {
					c.Cfg.Preempts = append(c.Cfg.Preempts[:i], c.Cfg.Preempts[i+n:]...)
					return true
				}) {
					again = true
				} else {
					i += n
				}
			}
		}
		for n := len(sc.Cfg.OpPre); n > 0; n /= 2 {
			for i := 0; i+n <= len(sc.Cfg.OpPre); {
				if try(func(c *Scenario) bool {
					c.Cfg.OpPre = append(c.Cfg.OpPre[:i], c.Cfg.OpPre[i+n:]...)
					return true
				}) {
					again = true
				} else {
					i += n
				}
			}
		}
		for i := len(sc.Cfg.Crashes) - 1; i >= 0; i-- {
			again = try(func(c *Scenario) bool {
				c.Cfg.Crashes = append(c.Cfg.Crashes[:i], c.Cfg.Crashes[i+1:]...)
				return true
			}) || again
		}
		if sc.Locked {
			again = try(func(c *Scenario) bool {
				c.Locked = false
				return true
			}) || again
		}
		if sc.Cfg.Sched != 0 {
			again = try(func(c *Scenario) bool {
				c.Cfg.Sched = 0
				return true
			}) || again
		}
		for i := len(sc.Files) - 1; i >= 0; i-- {
			if sc.Files[i].Via != "" {
				again = try(func(c *Scenario) bool {
					c.Files[i].Via = ""
					return true
				}) || again
			}
		}
		for i := len(sc.Vars) - 1; i >= 0; i-- {
			again = try(func(c *Scenario) bool {
				c.Vars = append(c.Vars[:i], c.Vars[i+1:]...)
				return true
			}) || again
		}
		for i := len(sc.Olds) - 1; i >= 0; i-- {
			again = try(func(c *Scenario) bool {
				c.Olds = append(c.Olds[:i], c.Olds[i+1:]...)
				return true
			}) || again
		}
		for i := len(sc.Extra) - 1; i >= 0; i-- {
			again = try(func(c *Scenario) bool {
				c.Extra = append(c.Extra[:i], c.Extra[i+1:]...)
				return true
			}) || again
		}
		for pi := range sc.Procs {
			for ti := len(sc.Procs[pi].Tasks) - 1; ti >= 0; ti-- {
				if len(sc.Procs[pi].Tasks) > 1 {
					if try(func(c *Scenario) bool {
						t := c.Procs[pi].Tasks
						c.Procs[pi].Tasks = append(t[:ti], t[ti+1:]...)
						return true
					}) {
						again = true
						continue
					}
				}
				for ci := len(sc.Procs[pi].Tasks[ti]) - 1; ci >= 0; ci-- {
					if len(sc.Procs[pi].Tasks[ti]) > 1 {
						again = try(func(c *Scenario) bool {
							t := c.Procs[pi].Tasks[ti]
							c.Procs[pi].Tasks[ti] = append(t[:ci], t[ci+1:]...)
							return true
						}) || again
					}
				}
			}
		}
		for i := len(sc.Files) - 1; i >= 0 && i < len(sc.Files); i-- {
			again = try(func(c *Scenario) bool { return dropFile(c, i) }) || again
		}
		for i := 0; i < len(sc.Files); i++ {
			if sc.Files[i].Doc == nil {
				continue
			}
			for k := len(sc.Files[i].Damage) - 1; k >= 0; k-- {
				again = try(func(c *Scenario) bool {
					d := c.Files[i].Damage
					c.Files[i].Damage = append(d[:k], d[k+1:]...)
					return true
				}) || again
			}
			if len(sc.Files[i].Damage) > 0 {
				continue // offsets would shift
			}
			for k := len(sc.Files[i].Doc.Comps) - 1; k >= 0; k-- {
				again = try(func(c *Scenario) bool { return dropComp(c, c.Files[i].Doc, k) }) || again
			}
			for k := len(sc.Files[i].Doc.Refs) - 1; k >= 0; k-- {
				again = try(func(c *Scenario) bool {
					r := c.Files[i].Doc.Refs[k]
					for _, cm := range c.Files[i].Doc.Comps {
						if r.Prefix != "" && strings.Contains(cm.Text, r.Prefix+":") {
							return false
						}
					}
					for _, f := range c.Files {
						if f.Doc == nil {
							continue
						}
						for _, cm := range f.Doc.Comps {
							for _, u := range append(cm.Far[:len(cm.Far):len(cm.Far)], cm.Uses...) {
								if u == r.Path {
									return false
								}
							}
						}
					}
					c.Files[i].Doc.Refs = append(c.Files[i].Doc.Refs[:k], c.Files[i].Doc.Refs[k+1:]...)
					return true
				}) || again
			}
			again = try(func(c *Scenario) bool {
				d := c.Files[i].Doc
				if d.Pad == 0 && !d.CRLF && !d.BOM {
					return false
				}
				d.Pad, d.CRLF, d.BOM = 0, false, false
				return true
			}) || again
		}
		again = try(func(c *Scenario) bool {
			if c.Cfg.MapSeed == 0 && c.Cfg.DirSeed == 0 && c.Cfg.Latency == 0 {
				return false
			}
			c.Cfg.MapSeed, c.Cfg.DirSeed, c.Cfg.Latency = 0, 0, 0
			return true
		}) || again
		again = try(func(c *Scenario) bool {
			if len(c.Cfg.Chunks) == 0 {
				return false
			}
			c.Cfg.Chunks = nil
			return true
		}) || again
		for i := range sc.Cfg.Faults {
			again = try(func(c *Scenario) bool {
				f := &c.Cfg.Faults[i]
				if f.Count == 0 {
					return false
				}
				f.Count = 0
				return true
			}) || again
		}
	}
	return sc, fl, tries
}

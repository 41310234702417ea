package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

// execCheck is a check that is decided by the executor specification
type execCheck struct {
	id          string
	profs       []profile
	mask        []string
	quick, deep int
	rule        string
	extra       func(r *run) error
	gen         []genConf
}

// genConf is a configuration of spec/ExecGen: all documents with up to so many selections
type genConf struct {
	conf        string
	quick, deep int
}

// specLines lets TLC explore a configuration of a generating specification; at most max of the printed cases
// (seeded choice) are returned
func (r *run) specLines(module, conf string, size, max int) ([]string, error) {
	t, err := runTLC(r.work, module, module, []string{"CONF=" + conf, fmt.Sprintf("SIZE=%d", size)}, 14*time.Minute, "-workers", "8")
	if err != nil {
		return nil, err
	}
	r.addTLC(t)
	lines := []string{}
	for _, l := range t.Lines {
		if strings.HasPrefix(l, "CASE ") {
			lines = append(lines, l[5:])
		}
	}
	t.Out, t.Lines = "", nil
	sort.Strings(lines)
	total := len(lines)
	if total == 0 {
		return nil, fmt.Errorf("%s %s produced no case", module, conf)
	}
	if total > max {
		r.rng.Shuffle(total, func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		lines = lines[:max]
	}
	r.exhaustive = append(r.exhaustive, fmt.Sprintf("%s %s size %d: %d cases explored in the specification, %d replayed on the code", module, conf, size, total, len(lines)))
	return lines, nil
}

// specCases lets TLC enumerate all documents of a configuration
func (r *run) specCases(g genConf, max int) ([]*Case, error) {
	lines, err := r.specLines("ExecGen", g.conf, r.n(g.quick, g.deep), max)
	if err != nil {
		return nil, err
	}
	res := []*Case{}
	for _, l := range lines {
		c, err := caseFromSpec([]byte(l), r.rng)
		if err != nil {
			return nil, err
		}
		res = append(res, c)
	}
	return res, nil
}

func (e execCheck) register() {
	checks[e.id] = checkDef{id: e.id, level: "model_checking", rule: e.rule, run: func(r *run) error {
		cs := []interface{}{}
		for _, g := range e.gen {
			gs, err := r.specCases(g, r.n(2200, 30000))
			if err != nil {
				return err
			}
			for _, c := range gs {
				cs = append(cs, c)
			}
		}
		n := r.n(e.quick, e.deep)
		for i := 0; i < n; i++ {
			cs = append(cs, genExecCase(r.rng, e.profs[i%len(e.profs)]))
		}
		if err := r.validate("exec", "ExecTrace", cs, e.mask); err != nil {
			return err
		}
		if e.extra != nil {
			return e.extra(r)
		}
		return nil
	}}
}

func (p profile) with(f func(p *profile)) profile { f(&p); return p }

func init() {
	suites["exec"] = func(raw []byte) interface{} {
		var c Case
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runExecCase(&c)
	}
	base := basicProfile().with(func(p *profile) { p.Huge = true })
	errp := base.with(func(p *profile) { p.Err, p.Bad, p.Method = 35, 4, 50; p.BadDir = 3 })

	execCheck{id: "C01", gen: []genConf{{"shape", 4, 5}}, mask: []string{"env", "okout"}, quick: 1500, deep: 40000,
		rule:  "random documents over the universe of Go types with random worlds; a case is distinct when document, world or options differ, only cases in which the specification reports no error are compared",
		profs: []profile{base, base.with(func(p *profile) { p.Frag, p.Inline, p.Dir = 0, 0, 0; p.MaxItems = 24 }), base.with(func(p *profile) { p.ListMax = 6; p.Copy = 30 })}}.register()

	fr := base.with(func(p *profile) {
		p.Frag, p.Inline, p.Iface = 35, 30, 40
		p.Fields = []string{"i", "il", "mi", "op", "ol", "x", "mil", "ip"}
	})
	execCheck{id: "C04", gen: []genConf{{"frag", 4, 5}}, mask: []string{"env", "out", "errs", "calls"}, quick: 1500, deep: 40000,
		profs: []profile{fr, fr.with(func(p *profile) { p.BadFrag = 30 }), fr.with(func(p *profile) { p.Err = 20 })}}.register()

	dr := base.with(func(p *profile) {
		p.Dir, p.Vars, p.Frag, p.Inline, p.Args = 45, 70, 20, 20, 20
		p.Fields = []string{"g", "go", "m", "mo"}
	})
	execCheck{id: "C05", gen: []genConf{{"dir", 2, 3}}, mask: []string{"env", "out", "errs", "calls"}, quick: 1500, deep: 40000,
		profs: []profile{dr, dr.with(func(p *profile) { p.BadDir = 12 }), dr.with(func(p *profile) { p.Err = 30; p.Method = 60 })}}.register()

	execCheck{id: "C08", gen: []genConf{{"err", 3, 4}}, mask: []string{"env", "errs", "haserr"}, quick: 1500, deep: 40000,
		profs: []profile{errp, errp.with(func(p *profile) { p.Bad = 12 }), errp.with(func(p *profile) { p.Err = 0; p.Bad = 8; p.BadDir = 8; p.BadFrag = 8 }), errp.with(func(p *profile) { p.Bad, p.BadDir = 0, 0; p.Fields = []string{"ml", "fl", "mil", "opl", "g", "m"} })}}.register()

	dp := base.with(func(p *profile) {
		p.Depth, p.MaxNest, p.MaxItems = 90, 9, 16
		p.Frag, p.Inline = 15, 15
		p.Fields = []string{"op", "ol", "mo", "i", "il", "opl", "oll", "x", "fo", "mi", "ml"}
	})
	execCheck{id: "C12", gen: []genConf{{"depth", 4, 6}}, mask: []string{"env", "out", "errs"}, quick: 1500, deep: 40000, profs: []profile{dp}}.register()

	ip := base.with(func(p *profile) {
		p.Inline, p.Frag = 25, 15
		p.Fields = []string{"i", "il", "mi", "mil", "ip", "ill"}
		p.MaxItems = 18
	})
	execCheck{id: "C13", gen: []genConf{{"iface", 2, 3}}, mask: []string{"env", "out", "calls", "haserr"}, quick: 1500, deep: 40000,
		profs: []profile{ip, ip.with(func(p *profile) { p.Err = 20; p.Depth = 20 })}}.register()

	cp := base.with(func(p *profile) {
		p.Ctx, p.Act, p.Err, p.Method = 80, 12, 10, 60
		p.Fields = []string{"m", "mo", "ml", "f", "fo", "fl", "mi", "me"}
	})
	execCheck{id: "C17", gen: []genConf{{"ctx", 3, 4}}, mask: []string{"env", "out", "errs", "ctxs", "calls"}, quick: 1500, deep: 40000, profs: []profile{cp, cp.with(func(p *profile) { p.Act = 30 })}}.register()

	rp := base.with(func(p *profile) {
		p.Mut = 50
		p.Fields = []string{"m", "mo", "ml", "f", "fo", "fl", "mi", "mil", "me", "g", "go", "ol"}
		p.Err = 8
		p.Bad = 2
	})
	execCheck{id: "C19", gen: []genConf{{"calls", 4, 5}}, mask: []string{"calls"}, quick: 1500, deep: 40000, profs: []profile{rp, rp.with(func(p *profile) { p.DupAlias = true }), rp.with(func(p *profile) { p.Copy, p.Trace = 40, 30 })}}.register()

	op := base.with(func(p *profile) { p.Multi, p.Mut, p.Vars, p.Dir = 70, 40, 60, 25; p.MaxItems = 6 })
	execCheck{id: "C16", gen: []genConf{{"ops", 2, 3}}, mask: []string{"env", "out", "haserr", "calls"}, quick: 1500, deep: 40000, profs: []profile{op}}.register()

	tp := base.with(func(p *profile) { p.Trace = 85; p.Err = 12; p.Bad = 2; p.Copy = 20 })
	execCheck{id: "C20", mask: []string{"env", "out", "errs", "trace"}, quick: 1500, deep: 40000, profs: []profile{tp, tp.with(func(p *profile) { p.Ctx = 20; p.Act = 5; p.DupAlias = true })}}.register()
}

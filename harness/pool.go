package main

// Copies of a schema used at the same time (spec/Pool.tla, spec/SessionTrace.tla)

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	y "github.com/mjarkk/yarql"
)

// PoolCase is a behaviour of a pool: the actions tell which instance does what, the requests are listed in the
// order in which they begin
type PoolCase struct {
	World    *World  `json:"world"`
	MaxDepth int     `json:"maxdepth"`
	CacheLen int     `json:"cachelen"`
	Acts     []PAct  `json:"acts"`
	Free     bool    `json:"free"` // the instances run freely, Of tells which request is for which instance
	Of       []int   `json:"of"`
	Reqs     []*Case `json:"reqs"`
}

type PAct struct {
	K string `json:"k"` // copy begin call end
	I int    `json:"i"` // instance, from 1
}

type pinst struct {
	s     *y.Schema
	busy  bool
	start chan *Case
	event chan string // at a call, or done
	next  chan bool
	out   chan *outcome
}

func runPool(c *PoolCase) (o SessObs) {
	s := newExecSchema(c.World, c.MaxDepth)
	if c.CacheLen >= 0 {
		l := c.CacheLen
		s.SetCacheRules(&l)
	}
	outs := make([]*outcome, len(c.Reqs))
	if c.Free {
		runFree(c, s, outs)
	} else {
		runGated(c, s, outs)
	}
	firsts := make([]string, len(outs))
	fresh := make([]string, len(outs))
	for i, q := range c.Reqs {
		if q.Kind != "raw" {
			continue
		}
		if outs[i] == nil {
			continue
		}
		firsts[i] = outs[i].summary()
		w2 := cloneWorld(c.World)
		fresh[i] = runRequest(newExecSchema(w2, c.MaxDepth), w2, nil, q).summary()
	}
	for i, q := range c.Reqs {
		if outs[i] == nil {
			panic("harness: request did not run")
		}
		if q.Kind == "raw" {
			x := outs[i].emptyObs()
			if firsts[i] != fresh[i] {
				x.Same = "differs from a new schema: got " + firsts[i] + " want " + fresh[i]
			}
			o.Steps = append(o.Steps, x)
			continue
		}
		o.Steps = append(o.Steps, outs[i].obs())
	}
	return o
}

func runGated(c *PoolCase, s *y.Schema, outs []*outcome) {
	insts := []*pinst{}
	of := []int{}
	var mu sync.RWMutex
	w := c.World
	recs := map[string]*recorder{}
	add := func(s *y.Schema) {
		p := &pinst{s: s, start: make(chan *Case), event: make(chan string), next: make(chan bool), out: make(chan *outcome, 100)}
		ready := make(chan bool)
		go func() {
			rec := &recorder{}
			mu.Lock()
			// replaced as a whole, other instances may be reading it
			n := map[string]*recorder{goroutineID(): rec}
			for k, v := range recs {
				n[k] = v
			}
			recs = n
			mu.Unlock()
			ready <- true
			for q := range p.start {
				rec.gate = func() {
					p.event <- "call"
					<-p.next
				}
				p.out <- runRequest(p.s, w, rec, q)
				p.event <- "done"
			}
		}()
		<-ready
		w.recs = recs // all instances are held, nobody reads it now
		insts = append(insts, p)
	}
	finish := func(p *pinst) {
		for p.busy {
			p.next <- true
			if <-p.event == "done" {
				p.busy = false
			}
		}
	}
	wait := func(p *pinst) {
		p.busy = <-p.event == "call"
	}
	open := map[int]bool{}
	add(s)
	nr := 0
	for _, a := range c.Acts {
		if a.I > len(insts) {
			continue
		}
		p := insts[a.I-1]
		switch a.K {
		case "copy":
			finish(p)
			open[a.I] = false
			add(p.s.Copy())
		case "begin":
			finish(p)
			if nr >= len(c.Reqs) {
				break
			}
			p.start <- c.Reqs[nr]
			of = append(of, a.I)
			nr++
			wait(p)
		case "call":
			if p.busy {
				p.next <- true
				wait(p)
			}
		case "end":
			finish(p)
		}
	}
	for _, p := range insts {
		finish(p)
		close(p.start)
	}
	for i, inst := range of {
		outs[i] = <-insts[inst-1].out
	}
	w.recs = nil
}

func runFree(c *PoolCase, s *y.Schema, outs []*outcome) {
	schemas := []*y.Schema{s}
	n := 1
	for _, a := range c.Acts {
		switch a.K {
		case "copy":
			if a.I <= len(schemas) {
				schemas = append(schemas, schemas[a.I-1].Copy())
			}
		case "begin":
			// before the copies are used
			for i, q := range c.Reqs {
				if outs[i] == nil && c.Of[i] == -a.I {
					outs[i] = runRequest(schemas[a.I-1], c.World, nil, q)
					break
				}
			}
		}
	}
	n = len(schemas)
	var reg, wg sync.WaitGroup
	begin := make(chan bool)
	recs := map[string]*recorder{}
	var mu sync.Mutex
	for i := range schemas {
		reg.Add(1)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rec := &recorder{}
			mu.Lock()
			recs[goroutineID()] = rec
			mu.Unlock()
			reg.Done()
			<-begin
			for j, q := range c.Reqs {
				if c.Of[j] == i+1 {
					outs[j] = runRequest(schemas[i], c.World, rec, q)
				}
			}
		}(i)
	}
	reg.Wait()
	c.World.recs = recs
	close(begin)
	wg.Wait()
	c.World.recs = nil
	_ = n
}

// ---- generation ----

func (g *sessGen) poolReq() *Case {
	if g.r.Intn(4) == 0 {
		return g.raw()
	}
	x := genExec(g.r, g.p, g.w)
	revalue(x, g.r)
	g.via(x)
	x.finish(g.r)
	return x
}

func newPoolCase(r *rand.Rand, p profile) (*PoolCase, *sessGen, func() *Case) {
	gg := &gen{r: r, p: p, c: &Case{}}
	w := gg.genWorld()
	g := &sessGen{r: r, p: p, w: &w}
	c := &PoolCase{World: &w, MaxDepth: 255, CacheLen: []int{-1, 0, 20, 60}[r.Intn(4)], Of: []int{}, Acts: []PAct{}}
	if r.Intn(4) == 0 {
		c.MaxDepth = 2 + r.Intn(4)
	}
	req := func() *Case {
		// the same documents on several instances
		if len(c.Reqs) > 0 && r.Intn(3) == 0 {
			x := *c.Reqs[r.Intn(len(c.Reqs))]
			return &x
		}
		return g.poolReq()
	}
	return c, g, req
}

// poolFromSpec makes a behaviour of spec/Pool.tla concrete
func poolFromSpec(raw []byte, r *rand.Rand, p profile) (*PoolCase, error) {
	var acts [][]interface{}
	if err := json.Unmarshal(raw, &acts); err != nil {
		return nil, err
	}
	c, _, req := newPoolCase(r, p)
	for _, a := range acts {
		k, i := a[0].(string), int(a[1].(float64))
		if k == "stop" {
			continue
		}
		c.Acts = append(c.Acts, PAct{k, i})
		if k == "begin" {
			c.Reqs = append(c.Reqs, req())
		}
	}
	if len(c.Reqs) == 0 {
		c.Acts = append(c.Acts, PAct{"begin", 2})
		c.Reqs = append(c.Reqs, req())
	}
	c.World.strip(c.Reqs...)
	return c, nil
}

// genPool: longer behaviours than the specification enumerates
func genPool(r *rand.Rand, p profile, free bool) *PoolCase {
	c, _, req := newPoolCase(r, p)
	c.Free = free
	n := 1
	if free {
		for k := 0; k < 1+r.Intn(4); k++ {
			if r.Intn(3) == 0 {
				i := 1 + r.Intn(n)
				c.Acts = append(c.Acts, PAct{"begin", i})
				c.Reqs, c.Of = append(c.Reqs, req()), append(c.Of, -i)
			}
			c.Acts = append(c.Acts, PAct{"copy", 1 + r.Intn(n)})
			n++
		}
		shared := []*Case{}
		for j := 0; j < 3+r.Intn(3); j++ {
			shared = append(shared, req())
		}
		for j := range shared {
			for i := 1; i <= n; i++ {
				q := *shared[j]
				if r.Intn(3) == 0 {
					q = *req()
				}
				c.Reqs, c.Of = append(c.Reqs, &q), append(c.Of, i)
			}
		}
	} else {
		for k := 0; k < 15+r.Intn(15); k++ {
			roll := r.Intn(100)
			i := 1 + r.Intn(n)
			switch {
			case roll < 15 && n < 6:
				c.Acts = append(c.Acts, PAct{"copy", i})
				n++
			case roll < 45 && len(c.Reqs) < 8:
				c.Acts = append(c.Acts, PAct{"begin", i})
				c.Reqs = append(c.Reqs, req())
			case roll < 85:
				c.Acts = append(c.Acts, PAct{"call", i})
			default:
				c.Acts = append(c.Acts, PAct{"end", i})
			}
		}
		if len(c.Reqs) == 0 {
			c.Acts = append(c.Acts, PAct{"begin", n})
			c.Reqs = append(c.Reqs, req())
		}
	}
	c.World.strip(c.Reqs...)
	return c
}

// raceBinary builds the harness with the race detector
func (r *run) raceBinary() (string, error) {
	bin := filepath.Join(r.work, "yv-race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, ".")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("race build: %v %s", err, strings.TrimSpace(string(out)))
	}
	return bin, nil
}

func init() {
	for _, n := range []string{"pool", "poolrace"} {
		suites[n] = func(raw []byte) interface{} {
			var c PoolCase
			if err := json.Unmarshal(raw, &c); err != nil {
				panic("harness: " + err.Error())
			}
			return runPool(&c)
		}
	}
	mask := []string{"env", "out", "errs", "calls", "ctxs", "reads", "args", "trace"}
	b := basicProfile().with(func(p *profile) {
		p.MaxItems, p.Err, p.Ctx, p.Values, p.Put, p.Trace, p.Method = 8, 10, 20, 20, 10, 20, 60
	})
	profs := []profile{b, b.with(func(p *profile) { p.Panic, p.Bad = 4, 4 }), b.with(func(p *profile) { p.Vars, p.Dir, p.Iface, p.Inline = 60, 25, 40, 25 })}
	checks["C11"] = checkDef{id: "C11", level: "model_checking",
		rule: "behaviours of the pool specification made concrete with random requests, longer random ones, and freely running ones under the race detector; distinct when requests, world or actions differ",
		run: func(r *run) error {
			lines, err := r.specLines("Pool", "behaviours", r.n(7, 9), r.n(1200, 20000))
			if err != nil {
				return err
			}
			cs := []interface{}{}
			for i, l := range lines {
				c, err := poolFromSpec([]byte(l), r.rng, profs[i%len(profs)])
				if err != nil {
					return err
				}
				cs = append(cs, c)
			}
			for i := 0; i < r.n(500, 15000); i++ {
				cs = append(cs, genPool(r.rng, profs[i%len(profs)], false))
			}
			if err := r.validate("pool", "SessionTrace", cs, mask); err != nil {
				return err
			}
			bin, err := r.raceBinary()
			if err != nil {
				return err
			}
			suiteBinary["poolrace"] = bin
			cs = nil
			for i := 0; i < r.n(400, 8000); i++ {
				cs = append(cs, genPool(r.rng, profs[i%len(profs)], true))
			}
			t0 := time.Now()
			err = r.validate("poolrace", "SessionTrace", cs, mask)
			r.notes["race_detector_cases"] = len(cs)
			r.notes["race_detector_s"] = time.Since(t0).Seconds()
			return err
		}}
}

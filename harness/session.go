package main

// Histories of requests on one schema (spec/SessionTrace.tla, spec/Cache.tla)

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	y "github.com/mjarkk/yarql"
)

type SessCase struct {
	World    *World  `json:"world"`
	MaxDepth int     `json:"maxdepth"`
	CacheLen int     `json:"cachelen"`
	Hist     string  `json:"hist"` // where the history comes from
	Reqs     []*Case `json:"reqs"`
}

type SessObs struct {
	Crash string `json:"crash"`
	Steps []Obs  `json:"steps"`
}

func cloneWorld(w *World) *World {
	b, err := json.Marshal(w)
	must(err)
	res := &World{}
	must(json.Unmarshal(b, res))
	return res
}

// clone copies a case before it is flattened
func (c *Case) clone() *Case {
	w := c.World
	c.World = nil
	b, err := json.Marshal(c)
	c.World = w
	must(err)
	res := &Case{}
	must(json.Unmarshal(b, res))
	return res
}

var reTimes = regexp.MustCompile(`"(startTime|endTime)":"[^"]*"|"(startOffset|duration)":-?\d+`)

// summary is everything about an outcome that does not depend on time
func (r *outcome) summary() string {
	var b strings.Builder
	b.WriteString(r.crash + "; " + r.env + "; ")
	b.Write(reTimes.ReplaceAll(r.result, []byte("t")))
	for _, e := range r.errs {
		fmt.Fprintf(&b, "; %T %s", e, e.Error())
	}
	fmt.Fprint(&b, r.w.callStrings(), r.w.argStrings(), r.w.reads, r.w.badCtx)
	return b.String()
}

func runSession(c *SessCase) (o SessObs) {
	s := newExecSchema(c.World, c.MaxDepth)
	if c.CacheLen >= 0 {
		l := c.CacheLen
		s.SetCacheRules(&l)
	}
	type step struct {
		out   *outcome
		same  string
		raw   bool
		first string
	}
	steps := []step{}
	for _, q := range c.Reqs {
		st := step{raw: q.Kind == "raw"}
		if q.Flood > 0 {
			st.raw = true
			st.same = flood(s, c, q)
			steps = append(steps, st)
			continue
		}
		st.out = runRequest(s, c.World, nil, q)
		if st.raw {
			w2 := cloneWorld(c.World)
			s2 := newExecSchema(w2, c.MaxDepth)
			fresh := runRequest(s2, w2, nil, q).summary()
			st.first = st.out.summary()
			if st.first != fresh {
				st.same = "differs from a new schema: got " + st.first + " want " + fresh
			}
		}
		steps = append(steps, st)
	}
	// everything that was handed out is only looked at now
	for _, st := range steps {
		if st.raw {
			if st.same == "" && st.out != nil && st.out.summary() != st.first {
				st.same = "changed later: first " + st.first + " now " + st.out.summary()
			}
			x := (&outcome{c: &Case{}}).emptyObs()
			x.Same = st.same
			o.Steps = append(o.Steps, x)
			continue
		}
		obs := st.out.obs()
		o.Steps = append(o.Steps, obs)
	}
	return o
}

// flood sends documents that only fill the cache
func flood(s *y.Schema, c *SessCase, q *Case) string {
	for i := 0; i < q.Flood; i++ {
		alias := fmt.Sprintf("x%03d", i)
		text := "{" + alias + ":__typename}"
		if q.FloodLen > 0 {
			if n := q.FloodLen - len(text); n > 0 {
				text += strings.Repeat(" ", n)
			}
		} else {
			text += strings.Repeat(" ", i)
		}
		errs := s.Resolve([]byte(text), y.ResolveOptions{})
		if want := `{"data":{"` + alias + `":"Q"}}`; len(errs) != 0 || string(s.Result) != want {
			return fmt.Sprintf("document %s: got %s %v want %s", text, s.Result, errs, want)
		}
	}
	return ""
}

// ---- generation ----

const fullIntrospection = `query IntrospectionQuery{__schema{queryType{name}mutationType{name}subscriptionType{name}types{...FullType}directives{name description locations args{...InputValue}}}}fragment FullType on __Type{kind name description fields(includeDeprecated:true){name description args{...InputValue}type{...TypeRef}isDeprecated deprecationReason}inputFields{...InputValue}interfaces{...TypeRef}enumValues(includeDeprecated:true){name description isDeprecated deprecationReason}possibleTypes{...TypeRef}}fragment InputValue on __InputValue{name description type{...TypeRef}defaultValue}fragment TypeRef on __Type{kind name ofType{kind name ofType{kind name ofType{kind name}}}}`

var rawDocs = []string{
	"", " ", "{", "}", "{a", "query", "{a}}", "fragment", "{...}", "{...F}", "query X{a}query Y{a", "subscription{a}", "{a(n:1)}", "{g(n:\"x\")}", "{nope}", "query($v:Boolean!){a@skip(if:$v)}",
	"{__schema{types{name}}}", `{__type(name:"Obj"){name fields{name type{name kind ofType{name}}}}}`, `{__type(name:"Nope"){name}}`, "mutation{__typename __schema{queryType{name}}}", fullIntrospection,
	"{op{op{op{op{a}}}}}", "{op}", "{a{a}}", "{m ml{m} op{m mo{m}}}", "query A{m}mutation B{m}", "{a\"\"}", "{\x00\xff}", "#", "{h(s:\"\\u12\")}", "{h(s:\"é\\n\")}", "{h(l:[\"a\",1])}", "{h(o:{s:$x})}",
	"{en(e:RED)}", "{en(e:BLUE_2,o:{e:[GREEN,RED]})}", "{en(e:NOPE)}", "{en}", `{tm(t:"2021-01-02T03:04:05Z")}`, `{__type(name:"Color"){kind enumValues(includeDeprecated:true){name}}}`, `{__type(name:"HObj"){kind inputFields{name type{kind name ofType{name kind}}}}}`,
}

// documents that name uploaded files
var fileDocs = []string{
	`{upf(f:"k")}`, `{upf(f:"k",g:"x")}`, `{upf(f:"e")}`, `{upf(l:["k","x","k"])}`, `{upf}`, `query($f:File){upf(f:$f)}`, `query($f:File,$g:[File]){a:upf(f:$f) b:upf(f:$f,l:$g)}`, `query($f:String="k"){upf(g:$f)}`, `{a:upf(f:"k") m b:upf(g:"k")}`,
}

var rawBodies = []string{"", "{", "[]", "null", `"x"`, `{"query":1}`, `{"query":"{a}"}`, `[{"query":"{a}"},{"query":"{m}"}]`, `[1,{"query":"{m ml{m}}"},{"query":"{"}]`, `{"query":"{m}","variables":[]}`, `{"query":"query A{a}query B{m}","operationName":"B"}`}

func (g *sessGen) raw() *Case {
	r := g.r
	c := &Case{Kind: "raw", MaxDepth: 255, Ctx: "none", CacheLen: -1}
	switch r.Intn(5) {
	case 0, 1:
		c.Text = rawDocs[r.Intn(len(rawDocs))]
		if r.Intn(4) == 0 {
			c.Text = fileDocs[r.Intn(len(fileDocs))]
			c.VarsJSON = []string{"", `{"f":"k"}`, `{"f":"e","g":["x","k"]}`, `{"f":null}`}[r.Intn(4)]
		}
		if r.Intn(4) == 0 {
			c.Via = []string{"get", "post"}[r.Intn(2)]
		}
	case 2:
		c.Via, c.Text = "body", rawBodies[r.Intn(len(rawBodies))]
	default:
		// a damaged document
		x := genExec(r, g.p, g.w)
		x.finish(r)
		c.Text, c.VarsJSON, c.Target = x.Text, x.VarsJSON, x.Target
		b := []byte(c.Text)
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
			i := r.Intn(len(b))
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b[r.Intn(len(b))] = `{}()[]"$@.!:,#a1 `[r.Intn(17)]
		case 3:
			c.VarsJSON = []string{"{", "[]", "null", "1", `{"v0":1,"v1":{}}`, "\xff"}[r.Intn(6)]
		}
		c.Text = string(b)
	}
	c.Tracing = r.Intn(5) == 0
	if r.Intn(2) == 0 {
		c.Files = []string{"x", "y"}[r.Intn(2)]
	}
	if r.Intn(5) == 0 {
		c.Ctx = []string{"live", "dead", "late"}[r.Intn(3)]
	}
	c.stripSel()
	return c
}

type sessGen struct {
	r *rand.Rand
	p profile
	w *World
}

func (g *sessGen) via(c *Case) {
	if c.BadVars != "" {
		return // the body would not be JSON
	}
	switch g.r.Intn(6) {
	case 0:
		c.Via = "post"
	case 1:
		c.Via = "get"
	}
}

// mutate changes a document without changing its length
func mutate(c *Case, r *rand.Rand) {
	var all []*Item
	var walk func(xs []Item)
	walk = func(xs []Item) {
		for i := range xs {
			all = append(all, &xs[i])
			walk(xs[i].Sel)
		}
	}
	for i := range c.Ops {
		walk(c.Ops[i].Sel)
	}
	for i := range c.Frags {
		walk(c.Frags[i].Sel)
	}
	swap := map[string]string{"a": "m", "m": "a", "i": "i", "mo": "op", "op": "mo", "ol": "ml", "ml": "ol", "f": "a", "fo": "mo", "fl": "ol"}
	for try := 0; try < 20; try++ {
		it := all[r.Intn(len(all))]
		switch r.Intn(4) {
		case 0:
			if it.K == "f" && it.Alias != it.Name {
				b := []byte(it.Alias)
				b[len(b)-1] = "abcxyz0123456789"[r.Intn(16)]
				it.Alias = string(b)
				return
			}
		case 1:
			if it.K == "f" && it.Alias != it.Name && it.Args == "none" && swap[it.Name] != "" {
				it.Name = swap[it.Name]
				return
			}
		case 2:
			if it.Args == "ok" && len(it.N) > 0 {
				b := []byte(it.N)
				if len(b) > 1 || b[0] != '0' {
					b[len(b)-1] = "123456789"[r.Intn(9)]
					it.N = string(b)
					return
				}
			}
		case 3:
			for i := range it.Dirs {
				if it.Dirs[i].Val == "var" && len(c.Ops[0].Vars) > 1 {
					it.Dirs[i].Var = c.Ops[0].Vars[r.Intn(len(c.Ops[0].Vars))].Name
					return
				}
			}
		}
	}
}

// revalue gives the variables of the request other values, the document stays as it is
func revalue(c *Case, r *rand.Rand) {
	given := map[string]string{}
	bad := c.BadVars != ""
	c.BadVars = ""
	if len(c.SVars) == 0 && c.Via == "" && r.Intn(8) == 0 {
		c.BadVars = []string{"[]", "{", "1", `{"v0":true`}[r.Intn(4)]
	}
	for i := range c.Ops {
		for j := range c.Ops[i].Vars {
			v := &c.Ops[i].Vars[j]
			if c.BadVars != "" {
				v.Given = "bad"
				continue
			}
			if _, ok := given[v.Name]; !ok {
				given[v.Name] = v.Given
				if bad || r.Intn(2) == 0 {
					given[v.Name] = []string{"T", "F", "T", "F", ""}[r.Intn(5)]
				}
			}
			v.Given = given[v.Name]
		}
	}
}

func genSession(r *rand.Rand, p profile, kind string) *SessCase {
	gg := &gen{r: r, p: p, c: &Case{}}
	w := gg.genWorld()
	g := &sessGen{r: r, p: p, w: &w}
	c := &SessCase{World: &w, MaxDepth: 255, CacheLen: []int{-1, 0, 20, 60}[r.Intn(4)], Hist: "random"}
	if r.Intn(4) == 0 {
		c.MaxDepth = 2 + r.Intn(4)
	}
	type doc struct {
		c    *Case
		seed int64
	}
	pool := []doc{}
	add := func(d doc) {
		x := d.c.clone()
		revalue(x, r)
		x.Tracing = gg.pct(20)
		x.NoMeta = gg.pct(6)
		if len(x.Ops) > 1 {
			for x.Target = ""; x.Target == ""; {
				x.Target = x.Ops[r.Intn(len(x.Ops))].Name
			}
			if r.Intn(8) == 0 {
				x.Target = "Z"
			}
		}
		if !gg.pct(p.Values) {
			x.Values = reading{}
		}
		if !x.NoMeta {
			g.via(x)
		}
		x.finish(rand.New(rand.NewSource(d.seed)))
		c.Reqs = append(c.Reqs, x)
	}
	n := 2 + r.Intn(5)
	if kind == "cache" {
		n += 3
	}
	for len(c.Reqs) < n {
		roll := r.Intn(100)
		switch {
		case len(pool) > 0 && (kind == "cache" && roll < 50 || roll < 20):
			add(pool[r.Intn(len(pool))])
		case len(pool) > 0 && kind == "cache" && roll < 70:
			d := pool[r.Intn(len(pool))]
			x := d.c.clone()
			mutate(x, r)
			pool = append(pool, doc{x, d.seed})
			add(pool[len(pool)-1])
		case kind == "history" && roll < 55, roll > 90:
			q := g.raw()
			c.Reqs = append(c.Reqs, q)
			if r.Intn(4) == 0 {
				x := *q
				c.Reqs = append(c.Reqs, &x)
			}
		case kind == "cache" && roll > 86:
			q := &Case{Kind: "raw", Flood: 21, FloodLen: 60, MaxDepth: 255, Ctx: "none"}
			if len(c.Reqs) > 0 && len(c.Reqs[len(c.Reqs)-1].Text) > 20 {
				q.FloodLen = len(c.Reqs[len(c.Reqs)-1].Text)
			}
			if r.Intn(2) == 0 {
				q.Flood, q.FloodLen = 120, 0
			}
			q.stripSel()
			c.Reqs = append(c.Reqs, q)
		default:
			x := genExec(r, p, &w)
			pool = append(pool, doc{x, r.Int63()})
			add(pool[len(pool)-1])
		}
	}
	c.World.strip(c.Reqs...)
	return c
}

// sessionFromHistory makes a history of spec/Cache.tla concrete
func sessionFromHistory(hist []string, r *rand.Rand) *SessCase {
	p := basicProfile()
	p.Multi, p.Mut, p.Vars, p.Dir, p.Frag, p.MaxItems = 100, 30, 60, 20, 20, 5
	gg := &gen{r: r, p: p, c: &Case{}}
	w := gg.genWorld()
	c := &SessCase{World: &w, MaxDepth: 255, Hist: strings.Join(hist, " ")}
	d1 := genExec(r, p, &w)
	d1.Ops = d1.Ops[:2]
	for i := range d1.Ops {
		if d1.Ops[i].Kind == "" {
			d1.Ops[i].Kind = "query" // it gets a name
		}
	}
	d1.Ops[0].Name, d1.Ops[1].Name = "X", "Y"
	if d1.Ops[0].Pos > d1.Ops[1].Pos {
		d1.Ops[0], d1.Ops[1] = d1.Ops[1], d1.Ops[0]
		d1.Ops[0].Name, d1.Ops[1].Name = "X", "Y"
	}
	d2 := d1.clone()
	d2.Ops[0].Name, d2.Ops[1].Name = "Y", "X"
	mutate(d2, r)
	d4 := d1.clone()
	d4.Ops = d4.Ops[:1]
	d4.Ops[0].Sel = append(d4.Ops[0].Sel, Item{K: "f", Name: "a", Alias: "zzzzzzzzzzzzzzzzzzzz", Args: "none"})
	seed := r.Int63()
	text := ""
	for _, h := range hist {
		var x *Case
		switch h {
		case "SAME":
			x = &Case{Kind: "raw", Flood: 20, FloodLen: len(text), MaxDepth: 255, Ctx: "none"}
		case "LENS":
			x = &Case{Kind: "raw", Flood: 100, MaxDepth: 255, Ctx: "none"}
		default:
			switch h[:2] {
			case "D1", "D3":
				x = d1.clone()
			case "D2":
				x = d2.clone()
			default:
				x = d4.clone()
			}
			x.Target = h[2:]
			x.World = nil
			revalue(x, r)
			x.Tracing = r.Intn(8) == 0
		}
		if x.Kind == "raw" {
			x.stripSel()
		} else {
			if x.Target == "" && len(x.Ops) > 1 {
				// without an operation name the last one is executed, which the specification of the executor leaves open
				x.Kind = "raw"
			}
			x.finish(rand.New(rand.NewSource(seed)))
			if h[:2] == "D3" {
				x.Kind = "raw"
				b := []byte(x.Text)
				i := strings.LastIndexByte(x.Text, '}')
				b[i] = ')'
				x.Text = string(b)
			}
			if h[:2] != "D4" {
				text = x.Text
			}
		}
		c.Reqs = append(c.Reqs, x)
	}
	c.CacheLen = []int{0, 0, 10, len(text) - 1, len(text)}[r.Intn(5)]
	if c.CacheLen < 0 {
		c.CacheLen = 0
	}
	c.World.strip(c.Reqs...)
	return c
}

func (r *run) cacheHistories(size, max int) ([]interface{}, error) {
	lines, err := r.specLines("Cache", "histories", size, 1<<30)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	uniq := []string{}
	for _, l := range lines {
		if !seen[l] {
			seen[l] = true
			uniq = append(uniq, l)
		}
	}
	r.rng.Shuffle(len(uniq), func(i, j int) { uniq[i], uniq[j] = uniq[j], uniq[i] })
	if len(uniq) > max {
		uniq = uniq[:max]
	}
	r.exhaustive = append(r.exhaustive, fmt.Sprintf("Cache: %d distinct histories, %d replayed", len(seen), len(uniq)))
	res := []interface{}{}
	for _, l := range uniq {
		var h []string
		if err := json.Unmarshal([]byte(l), &h); err != nil {
			return nil, err
		}
		res = append(res, sessionFromHistory(h, r.rng))
	}
	return res, nil
}

type sessCheck struct {
	id, kind    string
	mask        []string
	profs       []profile
	quick, deep int
	rule        string
	histories   bool
}

func (e sessCheck) register() {
	checks[e.id] = checkDef{id: e.id, level: "model_checking", rule: e.rule, run: func(r *run) error {
		cs := []interface{}{}
		if e.histories {
			hs, err := r.cacheHistories(r.n(3, 4), r.n(1200, 20000))
			if err != nil {
				return err
			}
			cs = hs
		}
		for i := 0; i < r.n(e.quick, e.deep); i++ {
			cs = append(cs, genSession(r.rng, e.profs[i%len(e.profs)], e.kind))
		}
		return r.validate("session", "SessionTrace", cs, e.mask)
	}}
}

func init() {
	suites["session"] = func(raw []byte) interface{} {
		var c SessCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runSession(&c)
	}
	all := []string{"env", "out", "errs", "calls", "ctxs", "reads", "args", "trace"}
	b := basicProfile().with(func(p *profile) { p.MaxItems, p.Err, p.Ctx, p.Values = 8, 12, 25, 15 })
	sessCheck{id: "C09", kind: "history", mask: all, quick: 1200, deep: 30000,
		rule:  "random histories of 2 to 8 requests on one schema; distinct when any request, the world or the cache threshold differs",
		profs: []profile{b, b.with(func(p *profile) { p.Panic, p.Err = 12, 5 }), b.with(func(p *profile) { p.Bad, p.BadDir, p.BadFrag, p.Act = 10, 8, 8, 8 })}}.register()
	sessCheck{id: "C10", kind: "cache", mask: all, quick: 800, deep: 25000, histories: true,
		rule:  "histories of the cache specification made concrete with random documents, and random histories over few near-identical documents; distinct when any request or the threshold differs",
		profs: []profile{b.with(func(p *profile) { p.Vars, p.Dir, p.Multi, p.Frag = 60, 20, 40, 25 }), b.with(func(p *profile) { p.Bad, p.Panic = 5, 3 })}}.register()
	v := b.with(func(p *profile) {
		p.Values, p.Put, p.Dir, p.Method = 50, 35, 20, 70
		p.Fields = []string{"m", "mo", "ml", "f", "fo", "fl", "mi", "me", "h"}
	})
	sessCheck{id: "C22", kind: "values", mask: []string{"env", "reads", "calls"}, quick: 1500, deep: 30000,
		rule:  "random histories of 2 to 6 requests in which resolvers and directives set and read request values; distinct when any request or the world differs",
		profs: []profile{v, v.with(func(p *profile) { p.Put, p.Panic, p.Act = 60, 3, 5 })}}.register()
	k := b.with(func(p *profile) {
		p.Err, p.Bad, p.BadFrag = 25, 4, 3
		p.Fields = []string{"h", "h", "h", "m", "mo", "ml", "mil"}
	})
	sessCheck{id: "C23", kind: "retain", mask: []string{"env", "args", "calls", "errs", "reads"}, quick: 1500, deep: 30000,
		rule:  "random histories of 2 to 6 requests; all strings, paths and errors handed out are read back after the last request; distinct when any request or the world differs",
		profs: []profile{k, k.with(func(p *profile) { p.Err = 0; p.Fields = []string{"h"} })}}.register()
}

package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"strconv"
	"strings"
	"time"

	y "github.com/mjarkk/yarql"
)

func itoa(i int) string          { return strconv.Itoa(i) }
func atoi(s string) (int, error) { return strconv.Atoi(s) }

// Dir is a directive on a selection. Val: T F (literal), var (variable Var), none
type Dir struct {
	Name string `json:"name"`
	Val  string `json:"val"`
	Var  string `json:"var"`
	Pos  string `json:"pos"` // pre / post: before or after the arguments
}

// Item is one selection. K: f (field) s (spread) i (inline fragment)
type Item struct {
	K     string   `json:"k"`
	Alias string   `json:"alias"`
	Name  string   `json:"name"`
	Args  string   `json:"args"`           // none ok bad unk
	Argv  []string `json:"argv,omitempty"` // what the resolver h has to receive
	Src   []string `json:"src,omitempty"`  // how its arguments are written
	N     string   `json:"n"`              // value of the argument n
	Dirs  []Dir    `json:"dirs"`
	Sel   []Item   `json:"sel,omitempty"`
	SelNr int      `json:"selnr"`
}

type Op struct {
	Kind  string `json:"kind"`
	Name  string `json:"name"`
	Dirs  []Dir  `json:"dirs"`
	Sel   []Item `json:"sel,omitempty"`
	SelNr int    `json:"selnr"`
	Pos   int    `json:"pos"` // place in the document, counted over ops and fragments
	Vars  []Var  `json:"vars"`
}

type Frag struct {
	Name  string `json:"name"`
	On    string `json:"on"`
	Sel   []Item `json:"sel,omitempty"`
	SelNr int    `json:"selnr"`
	Pos   int    `json:"pos"`
}

// Var: Def/Given are T, F, null or "" when absent
type Var struct {
	Name  string `json:"name"`
	Def   string `json:"def"`
	Given string `json:"given"`
}

// SVar is a variable used by the arguments of h; declared by every operation
type SVar struct{ Name, Type, JSON string }

type Case struct {
	ID       int      `json:"id"`
	World    *World   `json:"world,omitempty"`
	Kind     string   `json:"kind"`               // "" decided by the executor, raw: compared with a fresh schema
	Via      string   `json:"via"`                // "" Resolve, post, get: HandleRequest
	Flood    int      `json:"flood,omitempty"`    // so many documents that only fill the cache
	FloodLen int      `json:"floodlen,omitempty"` // of this length, otherwise all of different lengths
	Values   reading  `json:"values"`
	SVars    []SVar   `json:"svars,omitempty"`
	Ops      []Op     `json:"ops"`
	Frags    []Frag   `json:"frags"`
	Sels     [][]Item `json:"sels"`
	Target   string   `json:"target"`
	MaxDepth int      `json:"maxdepth"`
	Tracing  bool     `json:"tracing"`
	Ctx      string   `json:"ctx"` // none live dead late
	NoMeta   bool     `json:"nometa"`
	Style    int      `json:"style"`
	CacheLen int      `json:"cachelen"`
	Pad      int      `json:"pad,omitempty"` // bytes of nothing before and after the document
	Text     string   `json:"text"`
	Raw      string   `json:"raw"` // replaces the rendered text
	VarsJSON string   `json:"varsjson"`
	Files    string   `json:"files"`   // the caller's uploaded files, "": none
	BadVars  string   `json:"badvars"` // the variables of the request when they are not a JSON object
	Copy     bool     `json:"copy"`
	Warm     int      `json:"warm,omitempty"` // so many other requests came before, 4 or more: before the copy was made
}

// Obs is what one request of the real code did
type Obs struct {
	ID     int        `json:"id"`
	Crash  string     `json:"crash"`
	NoPath bool       `json:"nopath"` // the response had only the data
	Env    string     `json:"env"`    // problem with the response envelope, "" if none
	Out    []string   `json:"out"`
	Errs   []ErrObs   `json:"errs"`
	Calls  [][]string `json:"calls"`
	Ctxs   []string   `json:"ctxs"`
	Reads  []reading  `json:"reads"`
	Args   [][]string `json:"args"`
	Same   string     `json:"same"` // raw requests: difference with a fresh schema
	Trace  []TraceObs `json:"trace"`
	Traced bool       `json:"traced"`
	DurUs  int        `json:"durus"`
	Text   string     `json:"text"`
	Result string     `json:"result"`
}

type ErrObs struct {
	Path []string `json:"path"`
	Msg  string   `json:"msg"`
	Loc  bool     `json:"loc"`
}

type TraceObs struct {
	Path   []string `json:"path"`
	Parent string   `json:"parent"`
	Field  string   `json:"field"`
	Ret    string   `json:"ret"`
	Start  int      `json:"start"`
	End    int      `json:"end"`
}

// flatten numbers all selection sets so that the specification can address them
func (c *Case) flatten() {
	c.Sels = [][]Item{}
	var walk func(s []Item) int
	walk = func(s []Item) int {
		if len(s) == 0 {
			return 0
		}
		nr := len(c.Sels)
		c.Sels = append(c.Sels, nil)
		res := make([]Item, len(s))
		for i, it := range s {
			it.SelNr = walk(it.Sel)
			it.Sel = nil
			if it.Dirs == nil {
				it.Dirs = []Dir{}
			}
			res[i] = it
		}
		c.Sels[nr] = res
		return nr + 1
	}
	for i := range c.Ops {
		c.Ops[i].SelNr = walk(c.Ops[i].Sel)
	}
	for i := range c.Frags {
		c.Frags[i].SelNr = walk(c.Frags[i].Sel)
	}
}

// unflatten is the inverse of flatten, for cases that come from the specification
func (c *Case) unflatten() {
	var get func(nr int) []Item
	get = func(nr int) []Item {
		if nr == 0 {
			return nil
		}
		res := make([]Item, len(c.Sels[nr-1]))
		for i, it := range c.Sels[nr-1] {
			it.Sel = get(it.SelNr)
			res[i] = it
		}
		return res
	}
	for i := range c.Ops {
		c.Ops[i].Sel = get(c.Ops[i].SelNr)
	}
	for i := range c.Frags {
		c.Frags[i].Sel = get(c.Frags[i].SelNr)
	}
}

func (c *Case) stripSel() {
	for i := range c.Ops {
		c.Ops[i].Sel = nil
		if c.Ops[i].Dirs == nil {
			c.Ops[i].Dirs = []Dir{}
		}
		if c.Ops[i].Vars == nil {
			c.Ops[i].Vars = []Var{}
		}
	}
	for i := range c.Frags {
		c.Frags[i].Sel = nil
	}
	for _, sel := range c.Sels {
		for i := range sel {
			if sel[i].Name == "h" && sel[i].Argv == nil {
				sel[i].Argv = []string{}
			}
		}
	}
	if c.Values.K1 == "" {
		c.Values.K1 = "-"
	}
	if c.Values.K2 == "" {
		c.Values.K2 = "-"
	}
	if c.Ops == nil {
		c.Ops = []Op{}
	}
	if c.Frags == nil {
		c.Frags = []Frag{}
	}
	if c.Sels == nil {
		c.Sels = [][]Item{}
	}
	if c.World != nil {
		c.World.strip(c)
	}
}

// strip removes the values no request asks for
func (w *World) strip(cs ...*Case) {
	used := map[string]bool{}
	for _, c := range cs {
		if c.Kind == "raw" {
			return
		}
		for _, sel := range c.Sels {
			for _, it := range sel {
				used[it.Name] = true
			}
		}
	}
	for _, n := range w.Nodes {
		for k := range n.Vals {
			if !used[k] {
				delete(n.Vals, k)
			}
		}
	}
}

// ---- rendering ----

type tokw struct {
	toks []string
}

func (t *tokw) w(s ...string) { t.toks = append(t.toks, s...) }

func boolLit(v string) string {
	switch v {
	case "T":
		return "true"
	case "F":
		return "false"
	}
	return v
}

func (t *tokw) dirs(ds []Dir, pos string) {
	for _, d := range ds {
		if d.Pos != pos && !(pos == "pre" && d.Pos == "") {
			continue
		}
		t.w("@", d.Name)
		if d.Val == "none" {
			continue
		}
		t.w("(", "if", ":")
		if d.Val == "var" {
			t.w("$", d.Var)
		} else {
			t.w(boolLit(d.Val))
		}
		t.w(")")
	}
}

func (t *tokw) sel(s []Item) {
	t.w("{")
	for _, it := range s {
		switch it.K {
		case "f":
			if it.Alias != it.Name {
				t.w(it.Alias, ":")
			}
			t.w(it.Name)
			if it.Args == "none" || it.Args == "" {
				t.dirs(it.Dirs, "pre")
				t.dirs(it.Dirs, "post")
			} else {
				t.dirs(it.Dirs, "pre")
				switch it.Args {
				case "h":
					t.w("(")
					t.w(it.Src...)
					t.w(")")
				case "ok":
					t.w("(", "n", ":", it.N, ")")
				case "bad":
					t.w("(", "n", ":", `"x"`, ")")
				case "unk":
					t.w("(", "n", ":", "1", "unknown", ":", "1", ")")
				}
				t.dirs(it.Dirs, "post")
			}
			if len(it.Sel) > 0 {
				t.sel(it.Sel)
			}
		case "s":
			t.w("...", it.Name)
			t.dirs(it.Dirs, "pre")
			t.dirs(it.Dirs, "post")
		case "i":
			t.w("...")
			if it.Name != "" {
				t.w("on", it.Name)
			}
			t.dirs(it.Dirs, "pre")
			t.dirs(it.Dirs, "post")
			t.sel(it.Sel)
		}
	}
	t.w("}")
}

func (c *Case) tokens() []string {
	t := &tokw{}
	type part struct {
		pos int
		f   func()
	}
	parts := []part{}
	for i := range c.Ops {
		op := c.Ops[i]
		parts = append(parts, part{op.Pos, func() {
			if op.Kind != "" || len(c.SVars) > 0 {
				kind := op.Kind
				if kind == "" {
					kind = "query"
				}
				t.w(kind)
				if op.Name != "" {
					t.w(op.Name)
				}
				if len(op.Vars)+len(c.SVars) > 0 {
					t.w("(")
					for _, v := range c.SVars {
						t.w("$", v.Name, ":")
						t.w(strings.Split(v.Type, " ")...)
					}
					for _, v := range op.Vars {
						t.w("$", v.Name, ":", "Boolean")
						if v.Def != "" {
							t.w("=", boolLit(v.Def))
						}
					}
					t.w(")")
				}
				t.dirs(op.Dirs, "pre")
				t.dirs(op.Dirs, "post")
			}
			t.sel(op.Sel)
		}})
	}
	for i := range c.Frags {
		fr := c.Frags[i]
		parts = append(parts, part{fr.Pos, func() {
			t.w("fragment", fr.Name, "on", fr.On)
			t.sel(fr.Sel)
		}})
	}
	// stable order by pos
	for p := 0; p < 64; p++ {
		for _, x := range parts {
			if x.pos == p {
				x.f()
			}
		}
	}
	return t.toks
}

func wordy(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '-' || b == '+'
}

// joinTokens places ignored text between tokens. style 0: minimal, 1: one space, 2: anything
func joinTokens(toks []string, style int, rng *rand.Rand) string {
	var b strings.Builder
	ignored := []string{" ", "\n", "\r\n", "\t", ",", " , ", "  ", "#c\n", " # {a}\"$ \n", "\r", ",,", "\n\n", "#\r\n"}
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			need := len(prev) > 0 && len(t) > 0 && wordy(prev[len(prev)-1]) && (wordy(t[0]) || t[0] == '"' || t == "...") || len(prev) > 0 && len(t) > 0 && prev[len(prev)-1] == '"' && t[0] == '"'
			switch style {
			case 0:
				if need {
					b.WriteByte(' ')
				}
			case 1:
				b.WriteByte(' ')
			default:
				n := rng.Intn(4)
				if need && n == 0 {
					n = 1
				}
				for j := 0; j < n; j++ {
					b.WriteString(ignored[rng.Intn(len(ignored))])
				}
			}
		} else if style >= 2 && rng.Intn(3) == 0 {
			b.WriteString(ignored[rng.Intn(len(ignored))])
		}
		b.WriteString(t)
	}
	if style >= 2 && rng.Intn(2) == 0 {
		b.WriteString(ignored[rng.Intn(len(ignored))])
	}
	return b.String()
}

func (c *Case) varsToJSON() string {
	parts := []string{}
	seen := map[string]bool{}
	for _, op := range c.Ops {
		for _, v := range op.Vars {
			if v.Given == "bad" {
				if c.BadVars == "" {
					return "[]"
				}
				return c.BadVars
			}
			if v.Given != "" && !seen[v.Name] {
				seen[v.Name] = true
				parts = append(parts, fmt.Sprintf("%q:%s", v.Name, boolLit(v.Given)))
			}
		}
	}
	for _, v := range c.SVars {
		parts = append(parts, fmt.Sprintf("%q:%s", v.Name, v.JSON))
	}
	if len(parts) == 0 {
		return ""
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// ---- running ----

func newExecSchema(w *World, maxDepth int) *y.Schema {
	q, m := w.build()
	s := y.NewSchema()
	must(s.RegisterDirective(y.Directive{Name: "tag", Where: []y.DirectiveLocation{y.DirectiveLocationField}, Method: func(c *y.Ctx, a struct{ If bool }) y.DirectiveModifier {
		return y.DirectiveModifier{Skip: a.If}
	}}))
	must(s.RegisterDirective(y.Directive{Name: "spr", Where: []y.DirectiveLocation{y.DirectiveLocationFragment}, Method: func(c *y.Ctx, a struct{ If bool }) y.DirectiveModifier {
		return y.DirectiveModifier{Skip: a.If}
	}}))
	must(s.RegisterDirective(y.Directive{Name: "inl", Where: []y.DirectiveLocation{y.DirectiveLocationFragmentInline}, Method: func(a struct{ If bool }) y.DirectiveModifier {
		return y.DirectiveModifier{Skip: a.If}
	}}))
	must(s.RegisterDirective(y.Directive{Name: "hide", Where: []y.DirectiveLocation{y.DirectiveLocationField, y.DirectiveLocationFragment, y.DirectiveLocationFragmentInline}, Method: func() y.DirectiveModifier {
		return y.DirectiveModifier{Skip: true}
	}}))
	must(s.RegisterDirective(y.Directive{Name: "put", Where: []y.DirectiveLocation{y.DirectiveLocationField, y.DirectiveLocationFragment, y.DirectiveLocationFragmentInline}, Method: func(c *y.Ctx) y.DirectiveModifier {
		w.r().read(c)
		c.SetValue("k1", "d")
		return y.DirectiveModifier{}
	}}))
	_, err := s.RegisterEnum(colors)
	must(err)
	must(s.Parse(q, m, nil))
	if maxDepth >= 0 {
		s.MaxDepth = uint8(maxDepth)
	}
	return s
}

func must(err error) {
	if err != nil {
		panic("setup: " + err.Error())
	}
}

func runExecCase(c *Case) (o Obs) {
	w := c.World
	s := newExecSchema(w, c.MaxDepth)
	if c.CacheLen >= 0 {
		l := c.CacheLen
		s.SetCacheRules(&l)
	}
	if c.Warm > 3 {
		warm(s, c.Warm-3)
	}
	if c.Copy {
		s = s.Copy()
	}
	if c.Warm < 4 {
		warm(s, c.Warm)
	}
	return runRequest(s, w, nil, c).obs()
}

// warm sends requests that have nothing to do with the case and call no resolver that the world knows of
func warm(s *y.Schema, n int) {
	for ; n > 0; n-- {
		s.Resolve([]byte([]string{
			`query W($w: Boolean = true) {__schema {types {name fields {name}}} a: __typename @include(if: $w) nope nope2 {b}}`,
			`{w: __typename __type(name: "Q") {name ofType {name}}} {`,
			`mutation {w: __typename ...F} fragment F on M {__typename __typename @nope}`,
		}[n%3]), y.ResolveOptions{Tracing: n != 2, Variables: `{"w": true, "a": [1]}`, Values: &map[string]interface{}{"k1": "warm", key2: "warm"}})
	}
}

// outcome is everything a request left behind, not yet looked at
type outcome struct {
	c      *Case
	w      recorder // what was recorded
	result []byte
	errs   []error
	crash  string
	env    string
	doc    []byte // the buffer of the document: not touched after the request
	vars   string
	target string
}

// runRequest runs one request on the schema; a panic of a resolver is recovered as an http server would
func runRequest(s *y.Schema, world *World, w *recorder, c *Case) *outcome {
	if w == nil {
		w = &recorder{}
		world.rec = w
	}
	w.reset()
	r := &outcome{c: c}
	values := map[string]interface{}{}
	if c.Values.K1 != "-" && c.Values.K1 != "" {
		values["k1"] = valueOf(c.Values.K1)
	}
	if c.Values.K2 != "-" && c.Values.K2 != "" {
		values[key2] = valueOf(c.Values.K2)
	}
	doc := []byte(c.Text)
	if world.bare() != 0 {
		id := goroutineID()
		bareWorlds.Store(id, world)
		defer bareWorlds.Delete(id)
	}
	r.vars, r.target = strings.Clone(c.VarsJSON), strings.Clone(c.Target)
	opts := y.ResolveOptions{OperatorTarget: r.target, Tracing: c.Tracing, Variables: r.vars, NoMeta: c.NoMeta}
	// no values: none, an empty map or a pointer to a map that is not there
	if len(values) > 0 || len(c.Text)%3 == 1 {
		opts.Values = &values
	} else if len(c.Text)%3 == 2 {
		values = nil
		opts.Values = &values
	}
	if c.Files != "" {
		opts.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			if key == "e" {
				return nil, errors.New("no file " + key + " in " + c.Files)
			}
			return &multipart.FileHeader{Filename: c.Files + "/" + key}, nil
		}
	}
	switch c.Ctx {
	case "live", "dead", "late":
		ctx, cancel := context.WithCancel(context.Background())
		if c.Ctx == "late" {
			ctx, cancel = context.WithDeadline(context.Background(), time.Unix(1, 0))
		}
		w.orig, w.cancel = ctx, cancel
		if c.Ctx == "dead" {
			cancel()
		}
		opts.Context = ctx
		defer cancel()
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.crash = "panic: " + fmt.Sprint(e)
			}
		}()
		if c.Via == "" {
			r.errs = s.Resolve(doc, opts)
			r.result = append([]byte{}, s.Result...)
			return
		}
		ro := &y.RequestOptions{Context: opts.Context, Tracing: opts.Tracing, GetFormFile: opts.GetFormFile}
		if opts.Values != nil {
			ro.Values = values
		}
		form := func(string) (string, error) { return "", fmt.Errorf("no form") }
		var res []byte
		if c.Via == "get" {
			res, r.errs = s.HandleRequest("GET", func(k string) string {
				return map[string]string{"query": c.Text, "variables": r.vars, "operationName": r.target}[k]
			}, form, func() []byte { return nil }, "", ro)
		} else {
			m := map[string]interface{}{"query": c.Text}
			if c.Target != "" {
				m["operationName"] = c.Target
			}
			if c.VarsJSON != "" {
				m["variables"] = json.RawMessage(c.VarsJSON)
			}
			body, err := json.Marshal(m)
			must(err)
			if c.Via == "body" {
				body = []byte(c.Text)
			}
			keep := string(body)
			res, r.errs = s.HandleRequest("POST", func(string) string { return "" }, form, func() []byte { return body }, "application/json", ro)
			if string(body) != keep {
				r.env = "body modified"
			}
		}
		r.result = append([]byte{}, res...)
	}()
	if w.overlap {
		r.env = "resolver called while another one was running"
	}
	if string(doc) != c.Text {
		r.env = "document modified"
	}
	// the caller uses its buffer for something else
	for i := range doc {
		doc[i] = '#'
	}
	r.doc = doc
	r.w = *w
	return r
}

func (r *outcome) emptyObs() Obs {
	return Obs{Out: []string{}, Errs: []ErrObs{}, Calls: [][]string{}, Trace: []TraceObs{}, Ctxs: []string{}, Reads: []reading{}, Args: [][]string{}}
}

// obs looks at what a request left behind
func (r *outcome) obs() (o Obs) {
	if r.crash != "" {
		o = r.emptyObs()
		o.Crash = r.crash
	} else {
		if r.c.NoMeta {
			o = observeData(r.result, r.errs)
		} else {
			o = observe(r.result, r.errs)
		}
	}
	if r.env != "" {
		o.Env = r.env
	}
	for _, x := range r.doc {
		if x != '#' {
			o.Env = "the buffer of the document was written to after the request"
		}
	}
	if r.vars != r.c.VarsJSON || r.target != r.c.Target {
		o.Env = "variables or operation name modified"
	}
	o.ID = r.c.ID
	o.Calls = r.w.callStrings()
	o.Args = r.w.argStrings()
	o.Reads = r.w.reads
	o.Ctxs = r.w.badCtx
	o.Text = r.c.Text
	return o
}

// observeData is observe for a response that is only the data
func observeData(result []byte, errs []error) (o Obs) {
	o = Obs{Out: []string{}, Errs: []ErrObs{}, Calls: [][]string{}, Trace: []TraceObs{}, Ctxs: []string{}, Reads: []reading{}, Args: [][]string{}, NoPath: true}
	o.Result = string(result)
	if !json.Valid(result) {
		o.Env = "response is not valid JSON"
		return
	}
	if result[0] != '{' {
		o.Env = "data is not an object"
		return
	}
	o.Out = jsonTokens(result)
	for _, e := range errs {
		o.Errs = append(o.Errs, ErrObs{Path: []string{}, Msg: strings.ToValidUTF8(e.Error(), "\uFFFD")})
	}
	return
}

// observe decodes a response into the observation the specification is compared with
func observe(result []byte, errs []error) (o Obs) {
	o = Obs{Out: []string{}, Errs: []ErrObs{}, Calls: [][]string{}, Trace: []TraceObs{}, Ctxs: []string{}, Reads: []reading{}, Args: [][]string{}}
	o.Result = string(result)
	if !json.Valid(result) {
		o.Env = "response is not valid JSON"
		return
	}
	var env struct {
		Data       json.RawMessage   `json:"data"`
		Errors     []json.RawMessage `json:"errors"`
		Extensions json.RawMessage   `json:"extensions"`
	}
	var keys map[string]json.RawMessage
	if err := json.Unmarshal(result, &keys); err != nil {
		o.Env = "response is not an object"
		return
	}
	for k := range keys {
		if k != "data" && k != "errors" && k != "extensions" {
			o.Env = "unknown response key " + k
		}
	}
	if err := json.Unmarshal(result, &env); err != nil {
		o.Env = "malformed response: " + err.Error()
		return
	}
	if len(env.Data) == 0 || env.Data[0] != '{' {
		o.Env = "data is not an object"
		return
	}
	if _, has := keys["errors"]; has && len(env.Errors) == 0 {
		o.Env = "empty errors list"
	}
	if len(env.Errors) != len(errs) {
		o.Env = fmt.Sprintf("%d errors in the response, %d returned", len(env.Errors), len(errs))
	}
	for i, raw := range env.Errors {
		var e struct {
			Message   *string         `json:"message"`
			Path      json.RawMessage `json:"path"`
			Locations []struct {
				Line, Column *int
			} `json:"locations"`
		}
		if err := json.Unmarshal(raw, &e); err != nil || e.Message == nil {
			o.Env = "malformed error"
			return
		}
		if i < len(errs) && strings.ToValidUTF8(errs[i].Error(), "\uFFFD") != *e.Message && strings.ReplaceAll(strings.ToValidUTF8(errs[i].Error(), ""), "\uFFFD", "") != strings.ReplaceAll(*e.Message, "\uFFFD", "") {
			o.Env = fmt.Sprintf("error %d: response says %q, returned %q", i, *e.Message, errs[i].Error())
		}
		eo := ErrObs{Path: []string{}, Msg: *e.Message, Loc: len(e.Locations) > 0}
		if len(e.Path) > 0 {
			eo.Path = pathStrings(e.Path)
		}
		o.Errs = append(o.Errs, eo)
	}
	o.Out = jsonTokens(env.Data)
	if len(env.Extensions) > 0 {
		var ext struct {
			Tracing *struct {
				Version   int
				StartTime string
				EndTime   string
				Duration  int64
				Execution struct {
					Resolvers []struct {
						Path                              json.RawMessage
						ParentType, FieldName, ReturnType string
						StartOffset, Duration             int64
					}
				}
			}
		}
		if err := json.Unmarshal(env.Extensions, &ext); err != nil {
			o.Env = "malformed extensions"
			return
		}
		if ext.Tracing != nil {
			o.Traced = true
			o.DurUs = int(ext.Tracing.Duration / 1000)
			for _, r := range ext.Tracing.Execution.Resolvers {
				st, en := r.StartOffset/1000, (r.StartOffset+r.Duration)/1000
				if r.StartOffset < 0 || r.Duration < 0 || st > 2000000000 || en > 2000000000 {
					st, en = -1, -1
				}
				o.Trace = append(o.Trace, TraceObs{pathStrings(r.Path), r.ParentType, r.FieldName, r.ReturnType, int(st), int(en)})
			}
		}
	}
	return
}

// jsonTokens: { } [ ] k:<key> v:<raw value>
func jsonTokens(raw []byte) []string {
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	dec.UseNumber()
	out := []string{}
	type st struct {
		obj bool
		key bool
	}
	stack := []st{}
	after := func() {
		if n := len(stack); n > 0 && stack[n-1].obj {
			stack[n-1].key = true
		}
	}
	for {
		t, err := dec.Token()
		if err != nil {
			return out
		}
		switch x := t.(type) {
		case json.Delim:
			out = append(out, x.String())
			switch x {
			case '{':
				stack = append(stack, st{true, true})
			case '[':
				stack = append(stack, st{false, false})
			default:
				stack = stack[:len(stack)-1]
				after()
			}
			continue
		case string:
			if n := len(stack); n > 0 && stack[n-1].obj && stack[n-1].key {
				out = append(out, "k:"+x)
				stack[n-1].key = false
				continue
			}
			out = append(out, "s:"+x)
		case json.Number:
			out = append(out, "n:"+x.String())
		case bool:
			out = append(out, fmt.Sprintf("b:%v", x))
		case nil:
			out = append(out, "null")
		}
		after()
	}
}

// valueOf is what the request gets as a value
func valueOf(s string) interface{} {
	if s == "nil" {
		return nil
	}
	return s
}

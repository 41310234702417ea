package main

// HTTP requests (spec/Http.tla)

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"mime/multipart"
	"strings"
	"unicode/utf16"

	y "github.com/mjarkk/yarql"
)

// HTree is the JSON of a body
type HTree struct {
	K  string  `json:"k"`
	N  int     `json:"n"`
	Ms []HMem  `json:"ms"`
	Xs []HTree `json:"xs"`
}

type HMem struct {
	Key string `json:"key"`
	V   HTree  `json:"v"`
}

// MarshalJSON only writes what the kind has
func (t HTree) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": t.K}
	switch t.K {
	case "doc", "op", "vars":
		m["n"] = t.N
	case "obj":
		m["ms"] = append([]HMem{}, t.Ms...)
	case "arr":
		m["xs"] = append([]HTree{}, t.Xs...)
	}
	return json.Marshal(m)
}

type HttpCase struct {
	Method string `json:"method"`
	CType  string `json:"ctype"`
	Url    HUrl   `json:"url"`
	Form   string `json:"form"`
	Body   HTree  `json:"body"`

	Raw  string   `json:"raw"`  // the method as it is given
	Text string   `json:"text"` // of the body
	Docs []string `json:"docs"`
	Ops  []string `json:"ops"`
	Vars []string `json:"vars"`
	UrlV string   `json:"urlv"` // text of the variables in the URL
	Opts string   `json:"opts"` // nil empty full
}

type HUrl struct {
	Q int `json:"q"`
	O int `json:"o"`
	V int `json:"v"`
}

type HRef struct {
	Text  string   `json:"text"`
	Calls []string `json:"calls"`
	Errs  []string `json:"errs"`
}

type HttpObs struct {
	Shape string     `json:"shape"`
	Texts []string   `json:"texts"`
	Emsgs [][]string `json:"emsgs"`
	Calls []string   `json:"calls"`
	Errs  []string   `json:"errs"`
	Ref   [][][]HRef `json:"ref"`
	Env   string     `json:"env"`
	Crash string     `json:"crash"`
}

// ---- the schema: a resolver that tells what it received ----

type QHttp struct{ log *[]string }
type MHttp struct{ log *[]string }

type HEchoArgs struct {
	S string
	L []string
	N int
	O HEchoObj
	F *multipart.FileHeader
}
type HEchoObj struct {
	S string
	L []HEchoObj2
}
type HEchoObj2 struct{ T string }

type hctxKey struct{}

func hecho(kind string, log *[]string, c *y.Ctx, a HEchoArgs) (string, error) {
	f := ""
	if a.F != nil {
		f = a.F.Filename
	}
	val, _ := c.GetValueOk("k")
	cv := interface{}(nil)
	if ctx := c.GetContext(); ctx != nil {
		cv = ctx.Value(hctxKey{})
	}
	b, err := json.Marshal([]interface{}{kind, a.S, a.L, a.N, a.O, f, val, cv, string(c.GetPath())})
	if err != nil {
		panic("harness: " + err.Error())
	}
	*log = append(*log, string(b))
	if a.N == 13 {
		return string(b), errors.New("an error, \"quoted\"\n")
	}
	return string(b), nil
}

func (q QHttp) ResolveEcho(c *y.Ctx, a HEchoArgs) (string, error) { return hecho("q", q.log, c, a) }
func (q MHttp) ResolveEcho(c *y.Ctx, a HEchoArgs) (string, error) { return hecho("m", q.log, c, a) }

func newHttpSchema(log *[]string) *y.Schema {
	s := y.NewSchema()
	if err := s.Parse(QHttp{log}, MHttp{log}, nil); err != nil {
		panic("harness: " + err.Error())
	}
	return s
}

func hform(key string) (*multipart.FileHeader, error) {
	if strings.HasPrefix(key, "no") {
		return nil, errors.New("no such file")
	}
	return &multipart.FileHeader{Filename: "file " + key}, nil
}

func (c *HttpCase) options() *y.RequestOptions {
	switch c.Opts {
	case "nil":
		return nil
	case "empty":
		return &y.RequestOptions{}
	}
	return &y.RequestOptions{
		Context:     context.WithValue(context.Background(), hctxKey{}, "cv"),
		Values:      map[string]interface{}{"k": "v"},
		GetFormFile: hform,
	}
}

func at(xs []string, i int) string {
	if i == 0 {
		return ""
	}
	return xs[i-1]
}

func messages(errs []error) []string {
	res := []string{}
	for _, e := range errs {
		res = append(res, e.Error())
	}
	return res
}

func runHttp(c *HttpCase) (o HttpObs) {
	log := []string{}
	s := newHttpSchema(&log)
	bad := ""
	misuse := func(what string) {
		if bad == "" {
			bad = what
		}
	}
	res, errs := s.HandleRequest(c.Raw,
		func(key string) string {
			switch key {
			case "query":
				return at(c.Docs, c.Url.Q)
			case "operationName":
				return at(c.Ops, c.Url.O)
			case "variables":
				if c.Url.V == 0 {
					return ""
				}
				return c.UrlV
			}
			return ""
		},
		func(key string) (string, error) {
			if key != "operations" {
				misuse("form field " + key + " looked up")
				return "", errors.New("no such field")
			}
			if c.Form == "err" {
				return "", errors.New("cannot read the form")
			}
			return c.Text, nil
		},
		func() []byte {
			if c.CType == "multipart/form-data" {
				misuse("body of a form read")
				return nil
			}
			return []byte(c.Text)
		},
		c.CType, c.options())
	o.Calls, o.Errs, o.Env = log, messages(errs), bad
	o.Texts, o.Emsgs = []string{}, [][]string{}
	add := func(raw string) {
		o.Texts = append(o.Texts, raw)
		var r struct {
			Data   json.RawMessage `json:"data"`
			Errors []struct {
				Message *string `json:"message"`
			} `json:"errors"`
		}
		ms := []string{}
		if err := json.Unmarshal([]byte(raw), &r); err == nil && string(r.Data) == "{}" {
			for _, e := range r.Errors {
				if e.Message != nil {
					ms = append(ms, *e.Message)
				}
			}
		}
		o.Emsgs = append(o.Emsgs, ms)
	}
	var xs []json.RawMessage
	if err := json.Unmarshal(res, &xs); err == nil {
		o.Shape = "batch"
		for _, x := range xs {
			add(string(x))
		}
	} else {
		o.Shape = "one"
		if !json.Valid(res) {
			o.Env = "not JSON"
		}
		add(string(res))
	}

	// what every request does when it is resolved directly, on a schema of its own
	for q := 0; q <= len(c.Docs); q++ {
		l1 := [][]HRef{}
		for op := 0; op <= len(c.Ops); op++ {
			l2 := []HRef{}
			for v := 0; v <= len(c.Vars); v++ {
				log := []string{}
				s := newHttpSchema(&log)
				ro := y.ResolveOptions{OperatorTarget: at(c.Ops, op), Variables: at(c.Vars, v)}
				if x := c.options(); x != nil {
					ro.Context, ro.GetFormFile = x.Context, x.GetFormFile
					if x.Values != nil {
						ro.Values = &x.Values
					}
				}
				errs := s.Resolve([]byte(at(c.Docs, q)), ro)
				l2 = append(l2, HRef{string(s.Result), log, messages(errs)})
			}
			l1 = append(l1, l2)
		}
		o.Ref = append(o.Ref, l1)
	}
	return o
}

// ---- generation ----

// jsonText writes a string as JSON, with escapes where they are needed and elsewhere at will
func jsonText(s string, r *rand.Rand) string {
	var b strings.Builder
	b.WriteByte('"')
	p := 0
	if r.Intn(3) == 0 {
		p = 1 + r.Intn(40)
	}
	for _, c := range s {
		short := strings.IndexRune("\"\\\n\r\t\b\f/", c)
		must := c < 32 || c == '"' || c == '\\'
		switch {
		case short >= 0 && (must || r.Intn(100) < p) && r.Intn(3) > 0:
			b.WriteString([]string{`\"`, `\\`, `\n`, `\r`, `\t`, `\b`, `\f`, `\/`}[short])
		case must || r.Intn(100) < p:
			f := `\u%04x`
			if r.Intn(2) == 0 {
				f = `\u%04X`
			}
			if c > 0xffff {
				h, l := utf16.EncodeRune(c)
				fmt.Fprintf(&b, f+f, h, l)
			} else {
				fmt.Fprintf(&b, f, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sp(r *rand.Rand) string {
	if r.Intn(8) > 0 {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "  "}[r.Intn(5)]
}

// jval is JSON: an object is a []jmem
type jmem struct {
	k string
	v interface{}
}
type jraw string

func jrender(v interface{}, r *rand.Rand) string {
	switch v := v.(type) {
	case []jmem:
		parts := []string{}
		for _, m := range v {
			parts = append(parts, sp(r)+jsonText(m.k, r)+sp(r)+":"+sp(r)+jrender(m.v, r)+sp(r))
		}
		return "{" + strings.Join(parts, ",") + sp(r) + "}"
	case []interface{}:
		parts := []string{}
		for _, m := range v {
			parts = append(parts, sp(r)+jrender(m, r)+sp(r))
		}
		return "[" + strings.Join(parts, ",") + sp(r) + "]"
	case string:
		return jsonText(v, r)
	case jraw:
		return string(v)
	}
	panic("harness: jrender")
}

func httpText(r *rand.Rand) string {
	n := r.Intn(8)
	b := ""
	for i := 0; i < n; i++ {
		b += []string{"a", "B", " ", "\"", "\\", "\n", "\t", "\u0001", "\x7f", "\u200b", "\u2028", "é", "世", "😀", "/", "\r", "\b", "\f", "\u001f", "\ufffd", "{", "}", "$s", "\u00a0", "\ue000", "\U000e0001", "'", "%"}[r.Intn(28)]
	}
	return b
}

func gqlText(s string, r *rand.Rand) string {
	// escapes of GraphQL are those of JSON
	return strings.ReplaceAll(jsonText(s, r), "\x7f", `\u007f`)
}

func genHttpDoc(r *rand.Rand, i int) string {
	switch r.Intn(14) {
	case 0:
		return []string{"{", "", " ", "{nope}", "query A {", "{echo(s:1)}", "not a document", "{echo(n:13)}", "query A{echo} query A{echo}", "{echo{x}}", "fragment F on QHttp{echo}", "{__typename}"}[r.Intn(12)]
	case 1, 2:
		return fmt.Sprintf("{d%d: echo(s: %s)}", i, gqlText(httpText(r), r))
	case 3:
		return fmt.Sprintf("mutation A($s: String){d%d: echo(s: $s, n: 13)} query B{d%d:echo}", i, i)
	case 4:
		return fmt.Sprintf("query A($f: File){d%d: echo(f: $f)}", i)
	case 5:
		return fmt.Sprintf("query A($o: HEchoObj!){d%d: echo(o: $o, l: [%s])}", i, gqlText(httpText(r), r))
	case 6:
		return fmt.Sprintf("# %s\nquery A($s:String=%s){d%d:echo(s:$s)}\r\nquery B($l:[String!]){\td%d: echo(l:$l)}", strings.NewReplacer("\n", " ", "\r", " ", "\u0001", "", "\u001f", "", "\b", "", "\f", "").Replace(httpText(r)), gqlText(httpText(r), r), i, i)
	default:
		return fmt.Sprintf("query A($s: String, $n: Int){d%d: echo(s: $s, n: $n)} query B($l: [String], $s: String){d%d: echo(l: $l) e: echo(s: $s)}", i, i)
	}
}

func genHttpVars(r *rand.Rand) interface{} {
	res := []jmem{}
	add := func(k string, v interface{}) { res = append(res, jmem{k, v}) }
	if r.Intn(4) > 0 {
		add("s", httpText(r))
	}
	if r.Intn(2) == 0 {
		l := []interface{}{}
		for n := r.Intn(3); n > 0; n-- {
			l = append(l, httpText(r))
		}
		add("l", l)
	}
	if r.Intn(2) == 0 {
		add("n", jraw([]string{"0", "5", "-7", "13", "123456789012", "\"x\"", "1.5", "null", "true"}[r.Intn(9)]))
	}
	if r.Intn(3) == 0 {
		add("o", []jmem{{"s", httpText(r)}, {"l", []interface{}{[]jmem{{"t", httpText(r)}}}}})
	}
	if r.Intn(3) == 0 {
		add("f", []string{"k1", "no", "k\"2"}[r.Intn(3)])
	}
	if r.Intn(4) == 0 {
		add(httpText(r), httpText(r)+"x")
	}
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

// concrete makes the texts of a case
func (c *HttpCase) concrete(r *rand.Rand) {
	nd, nv := 3, 2
	for i := 0; i < nd; i++ {
		c.Docs = append(c.Docs, genHttpDoc(r, i))
	}
	c.Ops = []string{"A", "B"}
	if r.Intn(4) == 0 {
		c.Ops[r.Intn(2)] = []string{"C", "é\"", "a", "A "}[r.Intn(4)]
	}
	vals := []interface{}{}
	for i := 0; i < nv; i++ {
		v := genHttpVars(r)
		vals = append(vals, v)
		c.Vars = append(c.Vars, jrender(v, rand.New(rand.NewSource(1))))
	}
	if c.Url.V > 0 {
		c.UrlV = jrender(vals[c.Url.V-1], r)
	}
	c.Raw = c.Method
	if r.Intn(3) == 0 {
		c.Raw = []string{strings.ToLower(c.Method), c.Method[:1] + strings.ToLower(c.Method[1:])}[r.Intn(2)]
	}
	c.Opts = []string{"nil", "empty", "full", "full"}[r.Intn(4)]
	var tree func(t HTree, top bool) interface{}
	tree = func(t HTree, top bool) interface{} {
		switch t.K {
		case "doc":
			return c.Docs[t.N-1]
		case "op":
			return c.Ops[t.N-1]
		case "vars":
			return vals[t.N-1]
		case "str":
			return []string{"", "{echo}", "[]", "{}", httpText(r)}[r.Intn(5)]
		case "num":
			return jraw([]string{"0", "1", "-1.5e3", "12345678901234567890"}[r.Intn(4)])
		case "bool":
			return jraw([]string{"true", "false"}[r.Intn(2)])
		case "null":
			return jraw("null")
		case "list":
			return []interface{}{httpText(r), []jmem{{"query", "{echo}"}}}[:r.Intn(3)]
		case "arr":
			res := []interface{}{}
			for _, x := range t.Xs {
				res = append(res, tree(x, false))
			}
			return res
		case "obj":
			ms := []jmem{}
			for _, m := range t.Ms {
				ms = append(ms, jmem{m.Key, tree(m.V, false)})
			}
			for r.Intn(4) == 0 {
				k := []string{"extensions", "id", "Query", "querys", "variable", "operationname", "", "data"}[r.Intn(8)]
				dup := false
				for _, m := range ms {
					dup = dup || m.k == k
				}
				if !dup {
					ms = append(ms, jmem{k, []interface{}{"{echo}", []jmem{{"query", "{echo}"}}, jraw("null"), jraw("1")}[r.Intn(4)]})
				}
			}
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			return ms
		}
		panic("harness: tree " + t.K)
	}
	switch c.Body.K {
	case "empty":
	case "bad":
		good := jrender([]jmem{{"query", c.Docs[0]}, {"operationName", "A"}, {"variables", vals[0]}}, r)
		if r.Intn(3) == 0 {
			good = "[" + good + "," + good + "]"
		}
		switch r.Intn(4) {
		case 0, 1: // cut off
			good = good[:1+r.Intn(len(good)-1)]
		case 2:
			good += []string{"}", "]", ",", "{}", "x", "\"", "null"}[r.Intn(7)]
		case 3:
			good = []string{"nope", "{query:\"{echo}\"}", "{\"query\" \"{echo}\"}", "{\"query\":\"{echo}\",}", "[{\"query\":\"{echo}\"},]", "{\"query\":{echo}}", "{echo}", "query A{echo}", "'{}'", "}", "]", ":", "{\"query\":\"{echo}\"]", "[{\"query\":\"{echo}\"}}", "query={echo}", "{\"query\":}", "{\"query\"}", " "}[r.Intn(18)]
		}
		c.Text = good
	default:
		c.Text = sp(r) + jrender(tree(c.Body, true), r) + sp(r)
	}
}

func httpFromSpec(raw []byte, r *rand.Rand) (*HttpCase, error) {
	c := &HttpCase{}
	if err := json.Unmarshal(raw, c); err != nil {
		return nil, err
	}
	c.concrete(r)
	return c, nil
}

func genHttp(r *rand.Rand) *HttpCase {
	c := &HttpCase{
		Method: []string{"GET", "POST", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}[r.Intn(9)],
		CType:  []string{"", "application/json", "application/json", "text/plain", "multipart/form-data", "application/x-www-form-urlencoded"}[r.Intn(6)],
		Url:    HUrl{r.Intn(4), r.Intn(3), r.Intn(3)},
		Form:   "ok",
	}
	if r.Intn(12) == 0 {
		c.Form = "err"
	}
	var value func(kinds ...string) HTree
	value = func(kinds ...string) HTree {
		t := HTree{K: kinds[r.Intn(len(kinds))]}
		switch t.K {
		case "doc":
			t.N = 1 + r.Intn(3)
		case "op", "vars":
			t.N = 1 + r.Intn(2)
		case "arr":
			t.K = "list"
		}
		return t
	}
	request := func() HTree {
		t := HTree{K: "obj"}
		if r.Intn(12) > 0 {
			t.Ms = append(t.Ms, HMem{"query", value("doc", "doc", "doc", "doc", "doc", "doc", "doc", "doc", "doc", "doc", "num", "null", "list", "obj")})
		}
		if r.Intn(3) > 0 {
			t.Ms = append(t.Ms, HMem{"operationName", value("op", "op", "op", "op", "op", "op", "op", "op", "null", "num", "bool", "list", "obj")})
		}
		if r.Intn(3) > 0 {
			t.Ms = append(t.Ms, HMem{"variables", value("vars", "vars", "vars", "vars", "vars", "vars", "vars", "vars", "null", "num", "str", "bool", "list")})
		}
		return t
	}
	switch r.Intn(12) {
	case 0:
		c.Body = HTree{K: "empty"}
	case 1, 2:
		c.Body = HTree{K: "bad"}
	case 3:
		c.Body = value("num", "str", "bool", "null")
	case 4, 5, 6, 7:
		c.Body = HTree{K: "arr"}
		for n := r.Intn(7); n > 0; n-- {
			if r.Intn(8) == 0 {
				c.Body.Xs = append(c.Body.Xs, value("num", "str", "bool", "null", "list"))
			} else {
				c.Body.Xs = append(c.Body.Xs, request())
			}
		}
	default:
		c.Body = request()
	}
	c.concrete(r)
	return c
}

func init() {
	suites["http"] = func(raw []byte) interface{} {
		var c HttpCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runHttp(&c)
	}
	checks["C18"] = checkDef{id: "C18", level: "model_checking",
		rule: "every method, content type and body shape of HttpGen with random documents, names and variables, and seeded random requests (batches of up to six members); a case is distinct when any of its texts differ",
		run: func(r *run) error {
			lines, err := r.specLines("HttpGen", "all", r.n(2, 3), r.n(100000, 100000))
			if err != nil {
				return err
			}
			cs := []interface{}{}
			for rep := 0; rep < r.n(1, 5); rep++ {
				for _, l := range lines {
					c, err := httpFromSpec([]byte(l), r.rng)
					if err != nil {
						return err
					}
					cs = append(cs, c)
				}
			}
			for i, n := 0, r.n(3000, 60000); i < n; i++ {
				cs = append(cs, genHttp(r.rng))
			}
			return r.validate("http", "HttpTrace", cs, []string{})
		}}
}

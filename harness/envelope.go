package main

// The form of the answer to any request (spec/Envelope.tla)

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"mime/multipart"
	"strings"
	"time"
	"unicode/utf8"

	y "github.com/mjarkk/yarql"
)

// EnvReq is one request. Bytes are numbers as neither TLC nor JSON text can hold all of them
type EnvReq struct {
	Entry string `json:"entry"` // resolve dataonly json batch form url
	Doc   []int  `json:"doc"`   // the document, or the whole body for json batch form
	Vars  []int  `json:"vars"`
	Name  []int  `json:"name"`
	Setup string `json:"setup"` // plain tracing cancelled
	Rep   EnvRep `json:"rep"`   // a document that is too long to be listed
	Class string `json:"class"`
}

// EnvRep is the text Pre, N times Mid, Suf, N times End
type EnvRep struct {
	Pre string `json:"pre"`
	Mid string `json:"mid"`
	Suf string `json:"suf"`
	End string `json:"end"`
	N   int    `json:"n"`
}

type EnvCase struct {
	Setup string   `json:"setup"` // plain nocache shallow
	Reqs  []EnvReq `json:"reqs"`
}

type EnvAnswer struct {
	Form string  `json:"form"`
	Text []int   `json:"text"`
	Errs [][]int `json:"errs"`
	Long string  `json:"long"`
	Show string  `json:"show"`
}

type EnvObs struct {
	Crash   string      `json:"crash"`
	Changed string      `json:"changed"`
	Answers []EnvAnswer `json:"answers"`
	After   string      `json:"after"`
	Fresh   string      `json:"fresh"`
}

// ---- the schema ----

type EEnum uint8

type EIn struct {
	A   *int
	S   string
	E   EEnum
	Sub *EIn
	L   []EIn
	T   *time.Time
}

type EArgs struct {
	I8  int8
	U8  uint8
	I   int
	U   uint64
	F32 float32
	F   float64
	S   string
	B   bool
	E   EEnum
	T   time.Time
	Id  string `gq:",ID"`
	Num *uint  `gq:",ID"`
	L   []string
	LL  [][]int
	O   EIn
	P   *EIn
	PL  *[]*EIn
	Bs  []*bool
	Es  []EEnum
	X   *multipart.FileHeader
}

type EI interface {
	ResolveName() string
	ResolveSelf() EI
}

type EO struct {
	Ok   string
	N    int
	Deep *EO
	Deps []*EO
	Fl   []float64
}
type EP struct{ Other *string }

func (EO) ResolveName() string       { return "o" }
func (EO) ResolveSelf() EI           { return EP{} }
func (EP) ResolveName() string       { return "p" }
func (EP) ResolveSelf() EI           { return nil }
func (EO) ResolveFail() (int, error) { return 3, errors.New(envNasty[1]) }
func (EO) ResolveArgs(a EArgs) string {
	return fmt.Sprint(a.I8, a.U8, a.I, a.U, a.S, a.B, a.E, a.L, a.LL)
}

var _ = y.Implements((*EI)(nil), EO{})
var _ = y.Implements((*EI)(nil), EP{})

var envNasty = []string{"plain", "quote\" back\\slash", "line\nfeed\r\n\ttab", "\x00\x01\x1f\x7f", "not utf8 \xff\xc3 end", "é 😀 \u2028\u2029 </script>&", "", "\xed\xa0\x80", "{\"a\":[1,2]}", "a\xc3"}

type EQ struct {
	Ok    string
	Num   int
	Fl    []float64
	Nasty []string
	Raw   []byte
	List  []EO
	LL    [][]*EO
	Any   EI
	Anys  []EI
	Deep  *EO
	E     EEnum
	T     time.Time
	Fn    func() (string, error)
	NilFn func() string
	Id    uint `gq:",ID"`
	U     uint64
}
type EM struct{ Ok string }

type EFailArgs struct {
	M *string
	N int
}

func (EQ) ResolveArgs(a EArgs) string { return EO{}.ResolveArgs(a) }
func (EQ) ResolveFail(a EFailArgs) (*string, error) {
	if a.M != nil {
		return a.M, errors.New(*a.M)
	}
	if a.N < 0 {
		return nil, errors.New("negative")
	}
	return nil, errors.New(envNasty[a.N%len(envNasty)])
}
func (EQ) ResolveMany(c *y.Ctx, a struct{ N *int }) []EO {
	n := 2
	if a.N != nil {
		n = *a.N
	}
	if n < 0 || n > 300 {
		n = 1
	}
	c.SetValue("many", n)
	return make([]EO, n)
}
func (EQ) ResolvePath(c *y.Ctx) string { return string(c.GetPath()) + fmt.Sprint(c.GetValue("many")) }
func (EQ) ResolveFails() ([]EI, error) {
	return []EI{EO{}, nil, EP{}}, errors.New("a list, \"quoted\"")
}
func (EM) ResolveSet(a EArgs) (EO, error) { return EO{}, errors.New(a.S) }

type ETagArgs struct {
	If bool
	S  *string
	O  EIn
}

func newEnvSchema(setup string) *y.Schema {
	s := y.NewSchema()
	if _, err := s.RegisterEnum(map[string]EEnum{"RED": 1, "GREEN": 2, "e": 3}); err != nil {
		panic("harness: " + err.Error())
	}
	must(s.RegisterDirective(y.Directive{Name: "tag", Where: []y.DirectiveLocation{y.DirectiveLocationField, y.DirectiveLocationFragment, y.DirectiveLocationFragmentInline}, Method: func(a ETagArgs) y.DirectiveModifier {
		return y.DirectiveModifier{Skip: a.If}
	}}))
	o := EO{Ok: "x", Deep: &EO{Deps: []*EO{nil, {Ok: "\x00"}}}, Fl: []float64{1e300, -0.5, math.Inf(1), math.NaN()}}
	q := EQ{Ok: "ok", Num: -7, Fl: []float64{0, 1e-300, math.MaxFloat64, math.NaN(), math.Inf(-1)}, Nasty: envNasty, Raw: []byte{0, 255, 34}, List: []EO{o, {}}, LL: [][]*EO{{&o, nil}, nil, {}},
		Any: o, Anys: []EI{EP{}, nil, o, &o}, Deep: &o, E: 2, T: time.Date(2020, 2, 29, 1, 2, 3, 4000000, time.UTC), Fn: func() (string, error) { return "fn", errors.New(envNasty[2]) }, Id: 3, U: math.MaxUint64}
	must(s.Parse(q, EM{}, nil))
	if setup == "nocache" {
		zero := 0
		s.SetCacheRules(&zero)
	}
	if setup == "shallow" {
		s.MaxDepth = 3
	}
	return s
}

const envCanary = `query a($v: String) {ok list {n ok} any {name __typename} fail(n: 1) args(s: $v, l: ["a" "b"])}`

func envCanaryAnswer(s *y.Schema) string {
	errs := s.Resolve([]byte(envCanary), y.ResolveOptions{Variables: `{"v":"w"}`})
	return fmt.Sprint(string(s.Result), len(errs), errs)
}

func (r *EnvReq) text() string {
	if r.Rep.N > 0 {
		return r.Rep.Pre + strings.Repeat(r.Rep.Mid, r.Rep.N) + r.Rep.Suf + strings.Repeat(r.Rep.End, r.Rep.N)
	}
	return fromInts(r.Doc)
}

const envLong = 1500

func runEnvCase(c *EnvCase) (o EnvObs) {
	o.Answers = []EnvAnswer{}
	s := newEnvSchema(c.Setup)
	for _, r := range c.Reqs {
		text := r.text()
		vars, name := fromInts(r.Vars), fromInts(r.Name)
		ctx := context.Background()
		cancel := func() {}
		if r.Setup == "cancelled" {
			ctx, cancel = context.WithCancel(ctx)
			cancel()
		}
		form := func(key string) (*multipart.FileHeader, error) {
			if strings.HasPrefix(key, "no") {
				return nil, errors.New(envNasty[len(key)%len(envNasty)])
			}
			return &multipart.FileHeader{Filename: key}, nil
		}
		a := EnvAnswer{Form: "response"}
		var res []byte
		var errs []error
		switch r.Entry {
		case "resolve", "dataonly":
			doc := []byte(text)
			opts := y.ResolveOptions{Context: ctx, OperatorTarget: name, Variables: vars, GetFormFile: form, Tracing: r.Setup == "tracing"}
			if r.Entry == "dataonly" {
				opts.NoMeta = true
				a.Form = "data"
			}
			errs = s.Resolve(doc, opts)
			if string(doc) != text {
				o.Changed = "document modified"
			}
			res = s.Result
		default:
			method, ct := "POST", map[string]string{"json": "application/json", "batch": "text/plain", "form": "multipart/form-data", "url": ""}[r.Entry]
			if r.Entry == "url" {
				method = "GET"
			}
			body := []byte(text)
			opts := &y.RequestOptions{Context: ctx, GetFormFile: form, Tracing: r.Setup == "tracing"}
			if len(text)%5 == 0 {
				opts = nil
			}
			res, errs = s.HandleRequest(method, func(key string) string {
				return map[string]string{"query": text, "variables": vars, "operationName": name}[key]
			}, func(key string) (string, error) {
				if len(text)%7 == 3 {
					return "", errors.New(envNasty[len(text)%len(envNasty)])
				}
				return text, nil
			}, func() []byte { return body }, ct, opts)
			if string(body) != text {
				o.Changed = "body modified"
			}
			// fastjson decides what an array is: the specification is told what the answer claims to be
			if b := bytes.TrimSpace(res); len(b) > 0 && b[0] == '[' && r.Entry != "url" && strings.HasPrefix(strings.TrimSpace(text), "[") {
				a.Form = "batch"
			}
		}
		cancel()
		a.Show = strings.ToValidUTF8(string(clipText(res)), "?")
		a.Errs = [][]int{}
		if len(res) > envLong || len(errs) > 40 {
			a.Long = envLongCheck(res, errs, a.Form)
			a.Text, a.Form = toInts("{}"), "data"
		} else {
			a.Text = toInts(string(res))
			for _, e := range errs {
				a.Errs = append(a.Errs, toInts(e.Error()))
			}
		}
		o.Answers = append(o.Answers, a)
		if r.Rep.N > 0 {
			o.Answers[len(o.Answers)-1].Show = ""
		}
	}
	s.MaxDepth = 255
	o.After = envCanaryAnswer(s)
	f := newEnvSchema("plain")
	o.Fresh = envCanaryAnswer(f)
	o.After, o.Fresh = strings.ToValidUTF8(o.After, "?"), strings.ToValidUTF8(o.Fresh, "?")
	return o
}

func clipText(b []byte) []byte {
	if len(b) > 600 {
		return b[:600]
	}
	return b
}

// envLongCheck looks at an answer that is too long for the specification
func envLongCheck(res []byte, errs []error, form string) string {
	if !json.Valid(res) || !utf8.Valid(res) {
		return "a long answer is not valid JSON"
	}
	switch form {
	case "data":
		if res[0] != '{' {
			return "the data is no object"
		}
		return ""
	case "batch":
		var parts []json.RawMessage
		if json.Unmarshal(res, &parts) != nil {
			return "a long batch is no array"
		}
		n := 0
		for _, p := range parts {
			var e struct{ Errors []json.RawMessage }
			_ = json.Unmarshal(p, &e)
			if n+len(e.Errors) > len(errs) {
				return "more errors in the answer than returned"
			}
			if o := observe(p, errs[n:n+len(e.Errors)]); o.Env != "" {
				return o.Env
			}
			n += len(e.Errors)
		}
		if n != len(errs) {
			return "fewer errors in the answer than returned"
		}
		return ""
	}
	return observe(res, errs).Env
}

// ---- generation ----

type envField struct {
	name, sub string
	args      bool
}

var envTypes = map[string][]envField{
	"EQ": {{"ok", "", false}, {"num", "", false}, {"fl", "", false}, {"nasty", "", false}, {"raw", "", false}, {"list", "EO", false}, {"lL", "EO", false}, {"LL", "EO", false}, {"any", "EI", false}, {"anys", "EI", false}, {"deep", "EO", false},
		{"e", "", false}, {"t", "", false}, {"fn", "", false}, {"nilFn", "", false}, {"id", "", false}, {"u", "", false}, {"args", "", true}, {"args", "", true}, {"fail", "", true}, {"many", "EO", true}, {"path", "", false}, {"fails", "EI", false}, {"__typename", "", false}},
	"EM": {{"ok", "", false}, {"set", "EO", true}},
	"EO": {{"ok", "", false}, {"n", "", false}, {"deep", "EO", false}, {"deps", "EO", false}, {"fl", "", false}, {"name", "", false}, {"self", "EI", false}, {"fail", "", false}, {"args", "", true}},
	"EI": {{"name", "", false}, {"self", "EI", false}, {"ok", "", false}, {"other", "", false}, {"__typename", "", false}},
	"EP": {{"other", "", false}, {"name", "", false}, {"self", "EI", false}},
}
var envArgs = []string{"i8", "u8", "i", "u", "f32", "F32", "f", "s", "b", "e", "t", "id", "num", "l", "lL", "LL", "o", "p", "pL", "PL", "bs", "es", "x", "n", "m", "nope", "if"}
var envTypeNames = []string{"EQ", "EM", "EO", "EI", "EP", "EIn", "EEnum", "String", "Int", "Nope", "Float", "Boolean", "ID", "Time", "File"}

type egen struct {
	rng    *rand.Rand
	b      strings.Builder
	budget int
	frags  int
	vars   map[string]bool
}

func (g *egen) one(xs ...string) string { return xs[g.rng.Intn(len(xs))] }
func (g *egen) p(percent int) bool      { return g.rng.Intn(100) < percent }
func (g *egen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
		g.budget -= 1
	}
}

func (g *egen) value(d int) {
	if g.p(12) {
		v := "v" + itoa(g.rng.Intn(5))
		g.vars[v] = true
		g.w("$", v)
		return
	}
	switch g.rng.Intn(9) {
	case 0, 1:
		g.w(g.one("0", "-1", "7", "127", "128", "255", "256", "-128", "-129", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", strings.Repeat("9", 50)))
	case 2:
		g.w(g.one("1.5", "1e400", "-1e-400", "1e39", "3.4e38", "0.1", "1e309", "4.9e-324"))
	case 3, 4:
		g.w(g.one(`"s"`, `""`, `"RED"`, `"2020-02-29T01:02:03.004Z"`, `"2020-13-29T01:02:03Z"`, `"é\u00e9\ud83d\ude00"`, `"\ud800"`, `"\"\\\n"`, `"""block "quote" \""" end"""`, `"12"`, `"nofile"`, `"f"`, "\"\xff\"", `"`+strings.Repeat("long", 80)+`"`))
	case 5:
		g.w(g.one("true", "false", "null", "RED", "GREEN", "BLUE", "e"))
	case 6:
		g.w("[")
		for n := g.rng.Intn(3); n > 0 && d < 6; n-- {
			g.value(d + 1)
			g.w(" ")
		}
		g.w("]")
	default:
		g.w("{")
		for n := g.rng.Intn(4); n > 0 && d < 6; n-- {
			g.w(g.one("a", "s", "e", "sub", "l", "t", "sub", "zz"), ":")
			g.value(d + 1)
			g.w(" ")
		}
		g.w("}")
	}
}

func (g *egen) args() {
	g.w("(")
	for n := 1 + g.rng.Intn(4); n > 0; n-- {
		g.w(g.one(envArgs...), ":")
		g.value(0)
		g.w(" ")
	}
	g.w(")")
}

func (g *egen) dir() {
	if g.p(88) {
		return
	}
	g.w(" @", g.one("skip", "include", "tag", "tag", "nope"))
	if g.p(80) {
		g.w("(", g.one("if", "if", "s", "o"), ":")
		g.value(0)
		g.w(")")
	}
}

func (g *egen) set(ty string, d int) {
	g.w("{")
	for n := 1 + g.rng.Intn(4); n > 0; n-- {
		switch x := g.rng.Intn(20); {
		case x == 0:
			if g.p(10) {
				g.w("...", strings.Repeat("F", 2+g.rng.Intn(252)))
			} else {
				g.w("...F", itoa(g.rng.Intn(3)))
			}
			g.dir()
		case x <= 2 && d < 6:
			g.w("...")
			if g.p(70) {
				g.w(" on ", g.one("EQ", "EO", "EI", "EP", "EM", ty, ty, "Nope"))
			}
			g.dir()
			g.set(ty, d+1)
		case x == 3:
			g.w(g.one("nope", "__schema{queryType{name}}", `__type(name:"EO"){name fields{name}}`, "__typename", "__nope"))
		default:
			fs := envTypes[ty]
			f := fs[g.rng.Intn(len(fs))]
			if g.p(20) {
				g.w(g.one("x", "y", "ok", "é"[:0]+"z"), ":")
			}
			g.w(f.name)
			if f.args && g.p(85) || g.p(3) {
				g.args()
			}
			g.dir()
			if f.sub != "" && g.p(96) && d < 7 && g.budget > 0 {
				g.set(f.sub, d+1)
			} else if g.p(3) {
				g.set("EO", d+1)
			}
		}
		g.w(" ")
	}
	g.w("}")
}

func (g *egen) document() string {
	g.vars = map[string]bool{}
	body := func(op string) {
		head := g.b.String()
		g.b.Reset()
		g.set(map[string]string{"mutation": "EM"}[op]+map[bool]string{true: "EQ"}[op != "mutation"], 0)
		set := g.b.String()
		g.b.Reset()
		g.w(head, op, g.one("", " A", " B", " A"))
		if len(g.vars) > 0 {
			g.w("(")
			for v := range g.vars {
				if g.p(92) {
					g.w("$", v, ":", g.one("Int", "String", "Boolean", "Float", "[String]", "EIn", "EEnum", "[EIn!]!", "ID", "Time", "File", "Nope", "[[Int]]"), g.one("", "", "!"))
					if g.p(25) {
						g.w("=")
						h := g.b.String()
						g.b.Reset()
						g.value(2)
						val := g.b.String()
						g.b.Reset()
						g.w(h, val)
					}
					g.w(" ")
				}
			}
			g.w(")")
		}
		g.w(set)
	}
	n := 1
	if g.p(15) {
		n = 2
	}
	for ; n > 0; n-- {
		body(g.one("query", "query", "query", "mutation", "query"))
	}
	for i := 0; i < 3; i++ {
		if g.p(25) || strings.Contains(g.b.String(), "...F"+itoa(i)) && g.p(90) {
			ty := g.one("EQ", "EO", "EI", "EP", "EQ")
			g.w(" fragment F", itoa(i), " on ", ty)
			g.set(ty, 3)
		}
	}
	return g.b.String()
}

func envDocument(rng *rand.Rand) string {
	g := &egen{rng: rng, budget: 60}
	return g.document()
}

func mutateBytes(rng *rand.Rand, s string) string {
	const chars = "{}()[]:=!$@.\",#\n\r \tab1-0enu\\/_"
	for n := 1 + rng.Intn(3); n > 0 && len(s) > 1; n-- {
		i := rng.Intn(len(s))
		j := i + rng.Intn(len(s)-i)
		c := string([]byte{byte(rng.Intn(256))})
		if rng.Intn(2) == 0 {
			c = string(chars[rng.Intn(len(chars))])
		}
		switch rng.Intn(7) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + c + s[i:]
		case 2:
			s = s[:i] + c + s[i+1:]
		case 3:
			s = s[:i]
		case 4:
			s = s[:i] + s[j:]
		case 5:
			if j-i < 80 {
				s = s[:j] + s[i:j] + s[j:]
			}
		case 6:
			k := rng.Intn(len(s))
			if k < i {
				s = s[:k] + s[i:j] + s[k:]
			}
		}
	}
	return s
}

func randBytes(rng *rand.Rand, n int) string {
	b := make([]byte, rng.Intn(n))
	for i := range b {
		b[i] = byte(rng.Intn(256))
		if rng.Intn(3) == 0 {
			b[i] = "{}()[]:\"$@."[rng.Intn(11)]
		}
	}
	return string(b)
}

func envJSON(rng *rand.Rand, d int) string {
	switch x := rng.Intn(10); {
	case x < 3 || d > 4:
		return []string{"0", "-1", "12", "128", "300", "1.5", "1e400", "18446744073709551616", "true", "false", "null", strings.Repeat("9", 60), "-0", "1e2"}[rng.Intn(14)]
	case x < 6:
		return []string{`"s"`, `""`, `"RED"`, `"2020-02-29T01:02:03.004Z"`, `"\ud800"`, `"\u0000"`, `"12"`, `"nofile"`, `"f"`, "\"\xff\"", `"a\"b\\"`, `"` + strings.Repeat("x", 300) + `"`}[rng.Intn(12)]
	case x < 8:
		xs := []string{}
		for n := rng.Intn(3); n > 0; n-- {
			xs = append(xs, envJSON(rng, d+1))
		}
		return "[" + strings.Join(xs, ",") + "]"
	default:
		xs := []string{}
		for n := rng.Intn(4); n > 0; n-- {
			xs = append(xs, `"`+[]string{"a", "s", "e", "sub", "l", "t"}[rng.Intn(6)]+`":`+envJSON(rng, d+1))
		}
		return "{" + strings.Join(xs, ",") + "}"
	}
}

func envVars(rng *rand.Rand, kind string) string {
	obj := func() string {
		xs := []string{}
		for i := 0; i < 5; i++ {
			if rng.Intn(4) > 0 {
				xs = append(xs, fmt.Sprintf(`"v%d":%s`, i, envJSON(rng, 0)))
			}
		}
		return "{" + strings.Join(xs, ",") + "}"
	}
	switch kind {
	case "none":
		return ""
	case "object":
		return `{"v0":1,"v1":"s","v2":true,"v3":{"a":1},"v4":["x"]}`
	case "random":
		return obj()
	case "mutated":
		return mutateBytes(rng, obj())
	case "cut":
		o := obj()
		return o[:rng.Intn(len(o))]
	case "nonobject":
		return []string{"[]", "1", `"s"`, "null", "true", " ", "[{}]", "nul"}[rng.Intn(8)]
	case "deep":
		n := []int{299, 300, 301, 2000, 100000}[rng.Intn(5)]
		if rng.Intn(2) == 0 {
			return `{"v0":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}"
		}
		return `{"v0":` + strings.Repeat(`{"sub":`, n) + "{}" + strings.Repeat("}", n) + "}"
	case "types":
		return `{"v0":` + envJSON(rng, 0) + `,"v1":{"l":[{"sub":{"a":"x"}}]},"v2":[[1,"a"],null],"v3":"nofile","v4":{}}`
	case "twice":
		return `{"v0":1,"v0":"s","v1":2,"v1":null}`
	case "nonutf8":
		return "{\"v0\":\"\xff\xfe\",\"v\xff\":1}"
	case "long":
		return `{"v0":"` + strings.Repeat("\\u00e9", 2000) + `","v1":` + strings.Repeat("1", 3000) + "}"
	}
	panic("harness: variables " + kind)
}

func rep(pre, mid, suf, end string, n int) *EnvRep { return &EnvRep{pre, mid, suf, end, n} }

// envDoc makes a document of a kind
func envDoc(rng *rand.Rand, kind string) (string, *EnvRep) {
	name := func(n int) string { return strings.Repeat("n", n) }
	num := []int{254, 255, 256, 300, 511, 512, 65535, 65536, 70000}[rng.Intn(9)]
	few := []int{200, 254, 255, 256, 257, 300, 600}[rng.Intn(7)]
	deep := []int{300, 9998, 9999, 10000, 10001, 10002, 60000}[rng.Intn(7)]
	pick := func(xs ...string) string { return xs[rng.Intn(len(xs))] }
	switch kind {
	case "valid":
		return `query A($v0: Int) {ok list {n ok} args(i: $v0) fail(n: 2)}`, nil
	case "args":
		return `query A($v0: Int $v3: EIn $v4: [String]) {args(i: $v0 o: $v3 l: $v4 i8: -128 u8: 255 u: 18446744073709551615 f: 1e300 t: "2020-02-29T01:02:03.004Z" e: RED x: "f" id: "a" num: "3" lL: [[1] []] pL: [{l: [{a: 1}]} null])}`, nil
	case "errors":
		if rng.Intn(2) == 0 {
			return pick("{many(n:"+itoa(few)+"){", "{ok x:many(n:"+itoa(20+rng.Intn(80))+"){ok ", "{"+strings.Repeat("fail(n:1) nope ", 10+rng.Intn(40))+"many(n:3){") + pick("fail", "fail ok", "a:fail nope b:fail", "deep{ok} fail", "self{nope}") + "} num}", nil
		}
		return `{a: fail(n: 0) b: fail(n: 1) c: fail(n: 2) d: fail(n: 3) e: fail(n: 4) f: fail(n: 5) g: fail(n: 6) h: fail(n: 7) i: fail(n: 8) j: fail(n: 9) list {fail} anys {name ... on EO {fail}} nope}`, nil
	case "random":
		return envDocument(rng), nil
	case "mutated":
		return mutateBytes(rng, envDocument(rng)), nil
	case "spliced":
		a, b := envDocument(rng), envDocument(rng)
		return a[:rng.Intn(len(a))] + b[rng.Intn(len(b)):], nil
	case "bytes":
		return randBytes(rng, 60), nil
	case "empty":
		return "", nil
	case "ignored":
		return pick(" ", "\n\n", ",,,", "# c", "#", "\r\n\t"), nil
	case "nul":
		return pick("\x00", "{ok\x00}", "{\x00ok}", "query\x00{ok}", "{args(s:\"\x00\")}"), nil
	case "nonutf8":
		return pick("\xff{ok}", "{\xffok}", "{args(s:\"\xff\xfe\")}", "{ok #\xff\n}", "query \xc3{ok}", "{a\xe9:ok}", "{args(\xff:1)}", "query($\xff:Int){ok}", "{...\xff}", "{ok @\xff}", "{fail(m:\"\xff\xc3(\")}"), nil
	case "bom":
		return "\xef\xbb\xbf{ok}", nil
	case "cut":
		s := envDocument(rng)
		return s[:rng.Intn(len(s)+1)], nil
	case "unclosed":
		return pick("{", "{ok", "{args(", "{args(s:", `{args(s:"`, `{args(s:"""`, `{args(s:"\`, `{args(s:"\u`, "{args(l:[", "{args(o:{", "{args(o:{a", "{args(o:{a:", "query", "query(", "query($", "query($a", "query($a:", "query($a:[", "query($a:Int=", "{...", "{... on", "{... on EQ", "{ok@", "{ok @tag(", "fragment", "fragment F", "fragment F on", "fragment F on EQ", "{a:", "{#", "{list{"), nil
	case "closed":
		return pick("}", ")", "]", "{}", "{ok}}", "{ok)}", "{args()}", "{args(l:])}", "query(){ok}", "{list{}}", "fragment F on EQ{}", "()", "[]", "{{}}", "{[]}"), nil
	case "bigname":
		n := name(num)
		return pick("{"+n+"}", "{"+n+":ok}", "query "+n+"{ok}", "{args("+n+":1)}", "{args(s:"+n+")}", "{..."+n+"}", "query($"+n+":Int){args(i:$"+n+")}", "{ok @"+n+"}", "query($a:"+n+"){args(i:$a)}", "fragment "+n+" on EQ{ok} {..."+n+"}", "fragment F on "+n+"{ok} {...F}", "{args(o:{"+n+":1})}", "{...on "+n+"{ok}}", "{ok @tag("+n+":1)}"), nil
	case "bigstring":
		return `{fail(m:"` + strings.Repeat(pick("x", `\n`, "é", `\u00e9`, "\xff"), num) + `")}`, nil
	case "bigint":
		return "{args(" + pick("i8", "u8", "i", "u", "f", "f32", "s", "id") + ":" + pick("", "-") + strings.Repeat("9", num) + ")}", nil
	case "bigfloat":
		return "{args(" + pick("f", "f32", "i") + ":" + pick("1e"+strings.Repeat("9", 30), "1e-"+strings.Repeat("9", 30), "0."+strings.Repeat("0", num)+"1", strings.Repeat("1", num)+".5e-3", "1e+400", "-1e400") + ")}", nil
	case "surrogates":
		return `{fail(m:"` + pick(`\ud800`, `\udc00`, `\ud800\ud800`, `\ud800x`, `\udfff\ud800`, `\ud83d\ude00`, `\ud83d\n`, `\uD83D\u0041`, `\ud800\u`, `\uDBFF\uDFFF`) + `")}`, nil
	case "escapes":
		return `{fail(m:"` + pick(`\u0000`, `\u001f`, `\"`, `\\`, `\/`, `\b\f\n\r\t`, `\u2028`, `\u007f`, `\x`, `\u12g4`, `\u{1}`, `\`, `\u`) + `")}`, nil
	case "blockstring":
		return `{fail(m:` + pick(`""""""`, `"""a"""`, `"""a""""`, `"""\""""""`, "\"\"\"\n\n x\n\t\"\"\"", `""""`, `"""""`, `"""\"""`, "\"\"\"\x00\xff\"\"\"", `"""a"" """`) + ")}", nil
	case "manydirectives":
		return "{ok" + strings.Repeat(pick(" @tag", " @skip(if: false)", " @nope"), few) + "}", nil
	case "manyargs":
		return "{args(" + strings.Repeat(pick("i: 1 ", "s: \"x\" ", "nope: 1 "), few) + ")}", nil
	case "manyaliases":
		return "{" + strings.Repeat(pick("ok ", "a: ok ", "fail ", "nope "), few) + "}", nil
	case "manyops":
		return strings.Repeat(pick("query A {ok} ", "{ok} ", "mutation B {ok} "), few), nil
	case "manyfragments":
		var b strings.Builder
		b.WriteString("{")
		for i := 0; i < few; i++ {
			fmt.Fprintf(&b, "...F%d ", i)
		}
		b.WriteString("}")
		for i := 0; i < few; i++ {
			fmt.Fprintf(&b, "fragment F%d on EQ {ok}", i)
		}
		return b.String(), nil
	case "fragself":
		return pick("{...F} fragment F on EQ {...F}", "{...F} fragment F on EQ {ok ...F ok}", "{...F} fragment F on EQ {... on EQ {...F}}", "{deep{...F}} fragment F on EO {deep{...F}}", "fragment F on EQ {...F}", "{...F ...F} fragment F on EQ {list{...G}} fragment G on EO {deep{...G} ...G}"), nil
	case "fragmutual":
		return pick("{...F} fragment F on EQ {...G} fragment G on EQ {...F}", "{...F} fragment F on EQ {...G} fragment G on EQ {...H} fragment H on EQ {...F ok}", "{any{...F}} fragment F on EI {self{...G}} fragment G on EI {self{...F}}"), nil
	case "fragunknown":
		if long := strings.Repeat("F", 1+rng.Intn(254)); rng.Intn(2) == 0 {
			return pick("{..."+long+"} fragment G on EQ {ok}", "{list{..."+long+"}} fragment F on EO{n}", "fragment F on EQ{ok} {...F ..."+long+"}", "{...G} fragment G on EQ {..."+long+"}"), nil
		}
		return pick("{...F}", "{list{...F}}", "{... on Nope{ok}}", "{...F} fragment G on EQ {ok}", "{...F@skip(if:true)}", "{any{...Nope}}"), nil
	case "fragtwice":
		return "{...F} fragment F on EQ {ok} fragment F on EQ {num}", nil
	case "fragtype":
		return pick("{...F} fragment F on EO {ok}", "{...F} fragment F on Int {ok}", "{any{...F}} fragment F on EP {other}", "{list{... on EI {name}}}", "{any{...on EQ{ok}}}"), nil
	case "unknownfield":
		return pick("{nope}", "{list{nope}}", "{any{nope}}", "{nope{nope}}", "{nope(a:1)}", "mutation{nope}", "subscription{ok}", "{__nope}", "{ok nope num}"), nil
	case "leafselection":
		return pick("{ok{a}}", "{num{}}", "{list{n{x}}}", "{e{a}}", "{t{a}}", "{args{a}}", "{nasty{a}}", "{id{a}}", "{fn{a}}"), nil
	case "noselection":
		return pick("{list}", "{any}", "{deep}", "{LL}", "{lL}", "{many}", "{list{deep}}", "{__schema}", "{anys{self}}"), nil
	case "opvars":
		return pick("query($v0:Int){args(i:$nope)}", "query($v0:Int $v0:Int){args(i:$v0)}", "query($v0:Int!){args(i:$v0)}", "{args(i:$v0)}", "query($v0:Int){args(i:$v0)} query B($v1:Int){args(i:$v0)}", "query($v0:Int){list{args(i:$v0)}}"), nil
	case "vartypes":
		return "query A($v0:" + pick("Int", "String", "[Int]", "[[[Int!]!]!]!", "EIn", "EO", "Nope", "EEnum", "Boolean", "File", "Time", "ID") + "){args(" + pick("i", "s", "l", "o", "e", "b", "x", "t", "id", "LL", "lL", "pL", "PL") + ":$v0)}", nil
	case "vardefault":
		return "query A($v9:" + pick("Int", "String", "[Int]", "EIn", "EEnum", "Boolean", "File", "Time", "ID") + "=" + pick("1", `"s"`, "[1]", "{a:1}", "RED", "true", "null", "$v0", "1.5") + "){args(" + pick("i", "s", "l", "o", "e", "b", "x", "t", "id") + ":$v9)}", nil
	case "introspect":
		return pick(`{__schema{types{name kind fields{name type{name ofType{name ofType{name}}}}}}}`, `{__type(name:"EO"){name fields{name}}}`, `{__type(name:1){name}}`, `{__type{name}}`, `{__type(name:"Nope"){name}}`, `{__schema{directives{name args{name}}}}`, `{__typename list{__typename} any{__typename}}`, `{__schema{nope}}`, `{__type(name:"\u0000"){name}}`), nil
	case "deeplist":
		return "", rep("{args(l:", "[", "", pick("", "]"), deep)
	case "deepobject":
		return "", rep("{args(o:", "{sub:", pick("", "null", "{}", "1"), pick("", "}"), deep)
	case "deeptype":
		return "", rep("query($v0:", "[", pick("", "Int"), pick("", "]"), deep)
	case "deepselection":
		return "", rep("", pick("{deep", "{nope", "{list", "query{deep"), pick("", "{ok}"), pick("", "}"), deep)
	case "deepinline":
		return "", rep("{", pick("...{", "... on EQ{", "...@skip(if:false){"), pick("", "ok"), pick("", "}"), deep)
	case "deepvalid":
		switch rng.Intn(5) {
		case 0:
			return "", rep("{args(lL:", "[", "", "])}"[:1], deep)
		case 1:
			return "", rep("", "{deep", "{ok}", "}", deep)
		case 2:
			return "", rep("{", "...{", "ok", "}", deep)
		case 3:
			return "", rep("{args(o:{sub:", "{sub:", "null", "}", deep)
		default:
			return "", rep("query($a:", "[", "Int", "]", deep)
		}
	}
	panic("harness: document " + kind)
}

func envReq(rng *rand.Rand, doc, vars, name, entry, setup string) EnvReq {
	text, r := envDoc(rng, doc)
	v := envVars(rng, vars)
	n := map[string]string{"none": "", "there": "A", "missing": "Z", "odd": "\x00\xff\"{"}[name]
	q := EnvReq{Entry: entry, Setup: setup, Class: strings.Join([]string{doc, vars, name, entry, setup}, " ")}
	if r != nil && (entry == "resolve" || entry == "dataonly" || entry == "url") {
		q.Rep = *r
	} else if r != nil {
		rq := EnvReq{Rep: *r}
		text = rq.text()
	}
	if len(text) > 8000 && q.Rep.N == 0 && (entry == "resolve" || entry == "url") {
		// keep the cases small: a long run of the same
		q.Rep = EnvRep{Pre: text, N: 1}
		text = ""
	}
	if entry == "json" || entry == "form" || entry == "batch" {
		member := func(text, v string) string {
			ms := []string{}
			js := func(s string) string { b, _ := json.Marshal(s); return string(b) }
			if rng.Intn(12) > 0 {
				ms = append(ms, `"query":`+js(text))
			}
			if n != "" {
				ms = append(ms, `"operationName":`+js(n))
			}
			if v != "" {
				ms = append(ms, `"variables":`+v)
			}
			return "{" + strings.Join(ms, ",") + "}"
		}
		body := member(text, v)
		if entry == "batch" {
			ms := []string{body}
			for k := rng.Intn(3); k > 0; k-- {
				t, r2 := envDoc(rng, []string{"valid", "errors", "random", "mutated", "cut", "nonutf8", "fragself"}[rng.Intn(7)])
				if r2 != nil {
					t = "{ok}"
				}
				ms = append(ms, []string{member(t, envVars(rng, "random")), "1", "null", "{}", "[]", `{"query":1}`}[min(5, rng.Intn(14))%6])
				if rng.Intn(2) == 0 {
					ms[len(ms)-1] = member(t, "")
				}
			}
			rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			body = "[" + strings.Join(ms, ",") + "]"
		}
		switch rng.Intn(6) {
		case 0:
			body = mutateBytes(rng, body)
		case 1:
			if rng.Intn(3) == 0 {
				body = body[:rng.Intn(len(body))]
			}
		case 2:
			if rng.Intn(4) == 0 {
				body = []string{"", " ", "null", "1", `"s"`, "[]", "{}", "[null]", "[[]]", strings.Repeat("[", 400), strings.Repeat("[", 299) + strings.Repeat("]", 299), randBytes(rng, 40), strings.Repeat("[", 200000), `{"query":` + strings.Repeat("[", 310)}[rng.Intn(14)]
			}
		}
		text = body
		v, n = "", ""
		if len(text) > 8000 {
			q.Rep = EnvRep{Pre: strings.ToValidUTF8(text, "?"), N: 1}
			text = ""
		}
	}
	q.Doc, q.Vars, q.Name = toInts(text), toInts(v), toInts(n)
	return q
}

func init() {
	suites["envelope"] = func(raw []byte) interface{} {
		var c EnvCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runEnvCase(&c)
	}
	checks["C02"] = checkDef{id: "C02", level: "model_checking",
		rule: "requests of every kind of document, variables, operation name, way of asking and setup (EnvelopeGen, the kinds made concrete with the seed), several on one schema, with an ordinary request after them; seeded random, damaged and hostile documents and bodies; a case is distinct when its bytes are",
		run: func(r *run) error {
			t, err := runTLC(r.work, "EnvelopeGen", "EnvelopeGen", []string{"CONF=form", fmt.Sprintf("SIZE=%d", r.n(1, 2))}, 14*time.Minute, "-workers", "8")
			if err != nil {
				return err
			}
			r.addTLC(t)
			lines, err := r.specLines("EnvelopeGen", "input", 1, r.n(3600, 60000))
			if err != nil {
				return err
			}
			type env struct{ Doc, Vars, Name, Entry, Setup string }
			cs := []interface{}{}
			var cur *EnvCase
			add := func(q EnvReq, setup string) {
				if cur == nil {
					cur = &EnvCase{Setup: setup}
				}
				cur.Reqs = append(cur.Reqs, q)
				if len(cur.Reqs) > r.rng.Intn(4) {
					cs = append(cs, cur)
					cur = nil
				}
			}
			for _, l := range lines {
				var e env
				if err := json.Unmarshal([]byte(l), &e); err != nil {
					return err
				}
				st := e.Setup
				if st == "nocache" || st == "shallow" {
					st = "plain"
				}
				add(envReq(r.rng, e.Doc, e.Vars, e.Name, e.Entry, st), e.Setup)
			}
			entries := []string{"resolve", "resolve", "dataonly", "json", "batch", "form", "url"}
			docs := []string{"random", "random", "mutated", "mutated", "spliced", "cut", "args", "errors", "bytes"}
			vars := []string{"none", "object", "random", "random", "mutated", "types"}
			for i, n := 0, r.n(4000, 120000); i < n; i++ {
				pick := func(xs []string) string { return xs[r.rng.Intn(len(xs))] }
				add(envReq(r.rng, pick(docs), pick(vars), pick([]string{"none", "none", "there", "missing"}), pick(entries), pick([]string{"plain", "plain", "plain", "tracing", "cancelled"})), pick([]string{"plain", "nocache", "shallow"}))
			}
			if cur != nil {
				cs = append(cs, cur)
			}
			// documents of millions of nested parts: few, as each takes long
			for _, x := range []*EnvRep{rep("{args(l:", "[", "", "", 9000000), rep("{args(o:", "{a:", "", "", 4000000), rep("", "{a", "", "", 5000000), rep("{", "...{", "", "", 4000000), rep("query($a:", "[", "", "", 9000000),
				rep("", "{deep", "{ok}", "}", 2000000), rep("{", "...{", "ok", "}", 3000000), rep("{args(o:", "{sub:", "null", "}", 2000000), rep("{args(LL:", "[", "", "]", 3000000)} {
				cs = append(cs, &EnvCase{Setup: "plain", Reqs: []EnvReq{{Entry: "resolve", Doc: []int{}, Vars: []int{}, Name: []int{}, Setup: "plain", Rep: *x, Class: "huge"}}})
			}
			return r.validate("envelope", "EnvelopeTrace", cs, []string{})
		}}
}

package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"strings"

	y "github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/bytecode"
)

// ---- which documents are accepted (spec/Parser.tla) ----

// ParseCase is a document, as bytes and for the reader as text
type ParseCase struct {
	ID   int    `json:"id"`
	Text []int  `json:"text"`
	Show string `json:"show"`
	Kind string `json:"kind"`
	Alt  string `json:"alt"` // the same tokens with other ignored text between them
}

type ParseObs struct {
	ID    int     `json:"id"`
	Crash string  `json:"crash"`
	Env   string  `json:"env"`
	Locs  [][]int `json:"locs"`
	Calls int     `json:"calls"`
	Data  string  `json:"data"`
	Run   string  `json:"run"`
	Res   string  `json:"result"`
}

var parseCalls int

type PArgs struct {
	X *int
	Y string
	Z []PIn
	F float64
}
type PIn struct {
	X int
	S *string
	L []string
}

type PQ struct{ B string }
type PM struct{ B string }
type PO struct {
	B string
	Y *int
}

func (PQ) ResolveA(a PArgs) string   { parseCalls++; return "a" }
func (PQ) ResolveO(a PArgs) PO       { parseCalls++; return PO{} }
func (PM) ResolveA(a PArgs) string   { parseCalls++; return "a" }
func (PM) ResolveO(a PArgs) PO       { parseCalls++; return PO{} }
func (PO) ResolveA(a PArgs) string   { parseCalls++; return "a" }
func (PO) ResolveO(a PArgs) *PO      { parseCalls++; return &PO{} }
func (PO) ResolveList(a PArgs) []*PO { parseCalls++; return []*PO{{}, nil, {}} }

func newParseSchema() *y.Schema {
	s := y.NewSchema()
	must(s.RegisterDirective(y.Directive{Name: "tag", Where: []y.DirectiveLocation{y.DirectiveLocationField, y.DirectiveLocationFragment, y.DirectiveLocationFragmentInline}, Method: func(c *y.Ctx, a PArgs) y.DirectiveModifier {
		parseCalls++
		return y.DirectiveModifier{}
	}}))
	must(s.Parse(PQ{}, PM{}, nil))
	return s
}

func toInts(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func fromInts(x []int) string {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return string(b)
}

func runParseCase(c *ParseCase) (o ParseObs) {
	o = ParseObs{ID: c.ID, Locs: [][]int{}}
	s := newParseSchema()
	zero := 0
	if len(c.Text)%3 == 0 {
		s.SetCacheRules(&zero)
	}
	text := fromInts(c.Text)
	parseCalls = 0
	doc := []byte(text)
	errs := s.Resolve(doc, y.ResolveOptions{})
	o.Calls = parseCalls
	e := observe(s.Result, errs)
	o.Env = e.Env
	o.Res = e.Result
	if string(doc) != text {
		o.Env = "document modified"
	}
	res := string(s.Result)
	if c.Alt != "" {
		other := newParseSchema()
		_ = other.Resolve([]byte(c.Alt), y.ResolveOptions{})
		if string(other.Result) != res {
			o.Run = "with other ignored text the document means something else"
		}
	}
	var env struct {
		Data   json.RawMessage
		Errors []struct {
			Locations []struct{ Line, Column *int }
			Path      []interface{}
		}
	}
	_ = json.Unmarshal([]byte(res), &env)
	o.Data = string(env.Data)
	for i, e := range env.Errors {
		for _, l := range e.Locations {
			if l.Line == nil || l.Column == nil {
				o.Env = "incomplete location"
				continue
			}
			o.Locs = append(o.Locs, []int{*l.Line, *l.Column})
		}
		if i < len(errs) {
			var we bytecode.ErrorWLocation
			if errors.As(errs[i], &we) != (len(e.Locations) > 0) {
				o.Env = "location of the returned error and of the one in the response differ"
			}
		}
	}
	return
}

// ---- generation ----

var parseNames = []string{"a", "b", "o", "x", "y", "z", "f", "list", "tag", "skip", "include", "if", "__typename", "PO", "PQ", "A1", "_z", "queryX", "mutations", "onX", "on_", "nullable", "trueish", "falsey", "fragmentA", "o1", "Int", "String"}
var parseKw = []string{"query", "mutation", "subscription", "fragment", "on", "true", "false", "null"}
var parseTexts = map[string][]string{
	"int":    {"0", "7", "-12", "123", "-0", "9007199254740993"},
	"float":  {"1.5", "-0.25", "1e5", "2.5E-3", "0.0", "-1E+2"},
	"string": {`"s"`, `""`, `"\n\"{}#"`, `"""x"""`, `"é\u00e9"`, `"""a "b" """`, `"\\"`, `"# no comment"`, `""""""`, "\"\"\"\n l1\r\n l2 \\\"\"\" \"\"\"", `"\ud83d\ude00"`, `"\/\b\f\r\t"`},
}
var brokenToks = []string{"1a", "-", "1e", "1.", "1.5.2", "..", ".", "\"unterminated", "\"new\nline\"", `"\q"`, `"\u12"`, `"\u12G4"`, "%", ";", "&", "|", "'a'", "?", "~", "/", "\\", "\"cr\rline\"", "1e+", "....", "\x7f", "^", "\"", "\"\"\"", "\"\"\"a\"", "é", "1.5e", "-a", "<", "*"}

// brokenTok is nearly a token, now and then it is one: the specification judges it
func brokenTok(rng *rand.Rand) string {
	some := func(n int, xs ...string) string {
		s := ""
		for ; n > 0; n-- {
			s += xs[rng.Intn(len(xs))]
		}
		return s
	}
	switch rng.Intn(5) {
	case 0:
		b := byte(1 + rng.Intn(127))
		return "\"" + some(rng.Intn(3), "a", "\\n", "\\\"", " ") + "\\" + string([]byte{b}) + some(rng.Intn(3), "a", "0", "\\\\") + "\""
	case 1:
		return "\"" + some(rng.Intn(4), "a", "\\", "\\u", "00e9", "\n", "\r", "\t", "\"", "\\\\", "#", ",") + some(rng.Intn(2)+rng.Intn(2), "\"")
	case 2:
		return some(1, "-", "", "", "+", "1") + some(1+rng.Intn(4), "0", "1", ".", "e", "E", "-", "+", "7", "_", "5")
	case 3:
		return "\"\"\"" + some(rng.Intn(5), "a", "\"", "\\\"\"\"", "\n", " ", "\"\"", "\t", "#") + some(1, "\"\"\"", "\"\"\"", "\"\"", "\"\"\"\"", "")
	}
	return brokenToks[rng.Intn(len(brokenToks))]
}

func tokText(k string, rng *rand.Rand) string {
	if k == "name" {
		if rng.Intn(9) == 0 {
			// positions of name that keywords may take are the same for any name; the specification judges the text
			return parseNames[rng.Intn(len(parseNames))]
		}
		return parseNames[rng.Intn(8)]
	}
	if l, ok := parseTexts[k]; ok {
		return l[rng.Intn(len(l))]
	}
	return k
}

func parseCaseOf(toks []string, rng *rand.Rand, kind string) *ParseCase {
	txt := make([]string, len(toks))
	for i, t := range toks {
		txt[i] = tokText(t, rng)
	}
	c := parseCaseText(joinTokens(txt, rng.Intn(4), rng), kind)
	c.Alt = joinTokens(txt, 1, rng)
	return c
}

func parseCaseText(s, kind string) *ParseCase {
	return &ParseCase{Text: toInts(s), Show: strings.ToValidUTF8(s, "?"), Kind: kind}
}

type pgen struct {
	rng    *rand.Rand
	out    []string
	budget int
}

func (g *pgen) t(ts ...string)     { g.out = append(g.out, ts...); g.budget -= len(ts) }
func (g *pgen) p(percent int) bool { return g.budget > 0 && g.rng.Intn(100) < percent }

// a name that may be anything, now and then a keyword
func (g *pgen) name() {
	if g.rng.Intn(10) == 0 {
		g.t(parseKw[g.rng.Intn(len(parseKw))])
		return
	}
	g.t("name")
}
func (g *pgen) nameNot(k string) {
	n := len(g.out)
	for g.name(); g.out[n] == k; g.name() {
		g.out = g.out[:n]
	}
}

func (g *pgen) doc() {
	for n := 1 + g.rng.Intn(3); n > 0; n-- {
		switch g.rng.Intn(4) {
		case 0:
			g.selset(0)
		case 1, 2:
			g.t([]string{"query", "mutation", "query", "subscription"}[g.rng.Intn(4)])
			if g.p(60) {
				g.name()
			}
			if g.p(50) {
				g.t("(")
				for m := 1 + g.rng.Intn(3); m > 0; m-- {
					g.t("$")
					g.name()
					g.t(":")
					g.typ()
					if g.p(40) {
						g.t("=")
						g.value(0, false)
					}
				}
				g.t(")")
			}
			g.dirs(25)
			g.selset(0)
		case 3:
			g.t("fragment")
			g.nameNot("on")
			g.t("on")
			g.name()
			g.selset(0)
		}
	}
}

func (g *pgen) typ() {
	if g.p(35) {
		g.t("[")
		g.typ()
		g.t("]")
	} else {
		g.name()
	}
	if g.p(40) {
		g.t("!")
	}
}

func (g *pgen) dirs(percent int) {
	for g.p(percent) {
		g.t("@")
		g.name()
		if g.p(60) {
			g.args()
		}
	}
}

func (g *pgen) args() {
	g.t("(")
	for n := 1 + g.rng.Intn(3); n > 0; n-- {
		g.name()
		g.t(":")
		g.value(0, true)
	}
	g.t(")")
}

func (g *pgen) value(d int, vars bool) {
	switch x := g.rng.Intn(12); {
	case x == 0 && vars:
		g.t("$")
		g.name()
	case x < 3:
		g.t("int")
	case x < 4:
		g.t("float")
	case x < 6:
		g.t("string")
	case x < 8 || d > 3 || g.budget <= 0:
		g.name()
	case x < 10:
		g.t("[")
		for n := g.rng.Intn(4); n > 0; n-- {
			g.value(d+1, vars)
		}
		g.t("]")
	default:
		g.t("{")
		for n := g.rng.Intn(4); n > 0; n-- {
			g.name()
			g.t(":")
			g.value(d+1, vars)
		}
		g.t("}")
	}
}

func (g *pgen) selset(d int) {
	g.t("{")
	for n := 1 + g.rng.Intn(3); n > 0; n-- {
		switch x := g.rng.Intn(10); {
		case x == 0:
			g.t("...")
			g.nameNot("on")
			g.dirs(30)
		case x == 1 && d < 5:
			g.t("...")
			if g.rng.Intn(3) > 0 {
				g.t("on")
				g.name()
			}
			g.dirs(30)
			g.selset(d + 1)
		default:
			g.name()
			if g.p(25) {
				g.t(":")
				g.name()
			}
			if g.p(35) {
				g.args()
			}
			g.dirs(20)
			if g.p(40) && d < 6 {
				g.selset(d + 1)
			}
		}
	}
	g.t("}")
}

var allToks = []string{"name", "query", "fragment", "on", "true", "null", "$", "int", "float", "string", "[", "{", "]", "}", "(", ")", ":", "=", "!", "@", "..."}

func genParseCase(rng *rand.Rand) *ParseCase {
	g := &pgen{rng: rng, budget: 10 + rng.Intn(50)}
	g.doc()
	toks := g.out
	switch rng.Intn(10) {
	case 0, 1, 2:
		return parseCaseOf(toks, rng, "valid")
	case 3, 4, 5: // tokens
		for n := 1 + rng.Intn(2); n > 0 && len(toks) > 1; n-- {
			i := rng.Intn(len(toks))
			switch rng.Intn(5) {
			case 0:
				toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
			case 1:
				toks = append(append(append([]string{}, toks[:i]...), allToks[rng.Intn(len(allToks))]), toks[i:]...)
			case 2:
				toks = append([]string{}, toks...)
				toks[i] = allToks[rng.Intn(len(allToks))]
			case 3:
				toks = append([]string{}, toks...)
				j := rng.Intn(len(toks))
				toks[i], toks[j] = toks[j], toks[i]
			case 4:
				toks = toks[:i]
			}
		}
		return parseCaseOf(toks, rng, "tokens")
	case 6, 7: // a broken token
		txt := make([]string, len(toks))
		cand := []int{}
		for i, t := range toks {
			txt[i] = tokText(t, rng)
			if t == "int" || t == "float" || t == "string" || rng.Intn(6) == 0 {
				cand = append(cand, i)
			}
		}
		i := rng.Intn(len(toks))
		if len(cand) > 0 {
			i = cand[rng.Intn(len(cand))]
		}
		txt[i] = brokenTok(rng)
		return parseCaseText(joinTokens(txt, 1+rng.Intn(3), rng), "broken token")
	default: // bytes
		txt := make([]string, len(toks))
		for i, t := range toks {
			txt[i] = tokText(t, rng)
		}
		s := joinTokens(txt, rng.Intn(4), rng)
		const chars = "{}()[]:=!$@.\",#\n\r \tab1-0enu\\/_"
		for n := 1 + rng.Intn(2); n > 0 && len(s) > 1; n-- {
			i := rng.Intn(len(s))
			switch rng.Intn(4) {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + string(chars[rng.Intn(len(chars))]) + s[i:]
			case 2:
				s = s[:i] + string(chars[rng.Intn(len(chars))]) + s[i+1:]
			case 3:
				s = s[:i]
			}
		}
		return parseCaseText(s, "bytes")
	}
}

func init() {
	suites["parse"] = func(raw []byte) interface{} {
		var c ParseCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runParseCase(&c)
	}
	checks["C03"] = checkDef{id: "C03", level: "model_checking",
		rule: "documents from ParserGen (every viable token prefix in every part of a document: completed, cut off, with a wrong token, with a token left out) and seeded random documents, a part of them with damaged tokens or bytes, and every ASCII character at nine kinds of places; a case is distinct when its bytes are",
		run: func(r *run) error {
			lines, err := r.specLines("ParserGen", "all", r.n(2, 3), r.n(4000, 120000))
			if err != nil {
				return err
			}
			cs := []interface{}{}
			for _, l := range lines {
				var toks []string
				if err := json.Unmarshal([]byte(l), &toks); err != nil {
					return err
				}
				cs = append(cs, parseCaseOf(toks, r.rng, "spec"))
			}
			// every ASCII character where characters have a meaning of their own
			for b := 1; b < 128; b++ {
				for _, p := range [][2]string{{"{a(a:\"x\\", "y\")}"}, {"{a(a:\"", "\")}"}, {"{a", "b}"}, {"{a(a:1", "2)}"}, {"query", "{a}"}, {"{a}#", "{"}, {"{a(a:\"\\u00", "0\")}"}, {"{a(a:\"\"\"", "\"\"\")}"}, {"", "{a}"}} {
					cs = append(cs, parseCaseText(p[0]+string([]byte{byte(b)})+p[1], "character"))
				}
			}
			for i, n := 0, r.n(4000, 120000); i < n; i++ {
				cs = append(cs, genParseCase(r.rng))
			}
			return r.validate("parse", "ParserTrace", cs, []string{})
		}}
}

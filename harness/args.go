package main

// Argument binding: cases for spec/Args.tla. The schema of a case is built with reflect from the types it names.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"mime/multipart"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	y "github.com/mjarkk/yarql"
)

// TD describes a type of an argument, see spec/Args.tla
type TD struct {
	K  string
	N  string
	E  *TD
	Fs []FD
}
type FD struct {
	N string
	T *TD
}

func (f FD) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{f.N, f.T}) }
func (f *FD) UnmarshalJSON(b []byte) error {
	var xs []json.RawMessage
	if err := json.Unmarshal(b, &xs); err != nil {
		return err
	}
	if err := json.Unmarshal(xs[0], &f.N); err != nil {
		return err
	}
	return json.Unmarshal(xs[1], &f.T)
}
func (t TD) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": t.K}
	if t.N != "" || t.K == "obj" {
		m["n"] = t.N
	}
	if t.E != nil {
		m["e"] = t.E
	}
	if t.K == "obj" && t.N == "" {
		m["fs"] = t.Fs
	}
	return json.Marshal(m)
}

// AV is a value as written in a document or in JSON
type AV struct {
	K    string
	Neg  bool
	Ds   []int
	Fr   []int // digits after the point
	E    int
	HasE bool
	Els  []El
	B    string
	Name string
	Xs   []AV
	Fs   []AF
	C32  *fcert // a number that needs rounding: what it is as a float32 and as a float64
	C64  *fcert
}

// fcert is the number a decimal rounds to: its bits and its shortest decimal Ds * 10^E
type fcert struct {
	Over bool  `json:"over"`
	Bits []int `json:"bits"`
	Ds   []int `json:"ds"`
	E    int   `json:"e"`
}
type AF struct {
	N string `json:"n"`
	V AV     `json:"v"`
}
type El struct {
	K string `json:"k"` // cp u pair esc
	C int    `json:"c"`
	E string `json:"e"`
}

func ints(xs []int) []int {
	if xs == nil {
		return []int{}
	}
	return xs
}
func (v AV) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": v.K}
	switch v.K {
	case "int":
		m["neg"], m["ds"] = v.Neg, ints(v.Ds)
		if v.C32 != nil {
			m["c32"], m["c64"] = v.C32, v.C64
		}
	case "float":
		m["neg"], m["ds"], m["fs"], m["e"], m["hase"] = v.Neg, ints(v.Ds), ints(v.Fr), v.E, v.HasE
		if v.C32 != nil {
			m["c32"], m["c64"] = v.C32, v.C64
		}
	case "str":
		els := []map[string]interface{}{}
		for _, e := range v.Els {
			if e.K == "esc" {
				els = append(els, map[string]interface{}{"k": "esc", "e": e.E})
			} else {
				els = append(els, map[string]interface{}{"k": e.K, "c": e.C})
			}
		}
		m["els"] = els
	case "bool":
		m["b"] = v.B
	case "enum", "var":
		m["name"] = v.Name
	case "list":
		m["xs"] = v.Xs
		if v.Xs == nil {
			m["xs"] = []AV{}
		}
	case "obj":
		m["fs"] = v.Fs
		if v.Fs == nil {
			m["fs"] = []AF{}
		}
	}
	return json.Marshal(m)
}
func (v *AV) UnmarshalJSON(b []byte) error {
	var m struct {
		K    string
		Neg  bool
		Ds   []int
		Fs   json.RawMessage
		E    int
		HasE bool
		Els  []El
		B    string
		Name string
		Xs   []AV
		C32  *fcert
		C64  *fcert
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*v = AV{K: m.K, Neg: m.Neg, Ds: m.Ds, E: m.E, HasE: m.HasE, Els: m.Els, B: m.B, Name: m.Name, Xs: m.Xs, C32: m.C32, C64: m.C64}
	if m.K == "float" {
		return json.Unmarshal(m.Fs, &v.Fr)
	}
	if m.K == "obj" {
		return json.Unmarshal(m.Fs, &v.Fs)
	}
	return nil
}

type ArgVar struct {
	Name  string `json:"name"`
	Nest  int    `json:"nest"`
	TN    string `json:"tn"`
	Bang  int    `json:"bang"` // bits: which levels get a !
	Def   AV     `json:"def"`
	Given AV     `json:"given"`
}
type ArgField struct {
	Alias string `json:"alias"`
	Ty    *TD    `json:"ty"`
	Args  []AF   `json:"args"`
}
type ArgCase struct {
	ID     int        `json:"id"`
	Fields []ArgField `json:"fields"`
	Vars   []ArgVar   `json:"vars"`
	Form   bool       `json:"form"`
	Bad    []string   `json:"bad"`
	Style  int        `json:"style"`
	Seed   int64      `json:"seed"`
	Meth   bool       `json:"meth"`  // two argument structs and the context in between
	Cache  bool       `json:"cache"` // the request is made twice with the document cache on
}

type ArgGot struct {
	Calls int      `json:"calls"`
	Toks  []string `json:"toks"`
	Data  string   `json:"data"`
}
type ArgObs struct {
	ID     int        `json:"id"`
	Crash  string     `json:"crash"`
	Env    string     `json:"env"`
	Got    []ArgGot   `json:"got"`
	Looks  []string   `json:"looks"`
	Errs   [][]string `json:"errs"`
	Text   string     `json:"text"`
	Vars   string     `json:"varsjson"`
	Result string     `json:"result"`
}

// ---- Go types ----

type EnS string
type EnI int8
type EnU uint16

type InA struct {
	X       int8
	S       string
	P       *string
	L       []int
	Lpp     []*[]int16
	Self    *InA
	B       bool
	E       EnI
	T       time.Time
	F       *multipart.FileHeader
	Id      uint8 `gq:",ID"`
	Skipped int   `gq:"-"`
	KEEP    float64
	hidden  int
	Ren     EnS `gq:"renamed"`
}
type InB struct {
	N  InA
	Ls []InA
	M  [][]*string
	Lf []*multipart.FileHeader
	Q  uint64
}

var primTypes = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)), "int": reflect.TypeOf(int(0)),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uint": reflect.TypeOf(uint(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
}

var objFieldsTD = map[string][]FD{
	"InA": {{"x", prim("int8")}, {"s", prim("string")}, {"p", ptr(prim("string"))}, {"l", sl(prim("int"))}, {"lpp", sl(ptr(sl(prim("int16"))))},
		{"self", ptr(&TD{K: "obj", N: "InA"})}, {"b", prim("bool")}, {"e", &TD{K: "enum", N: "EnI"}}, {"t", &TD{K: "time"}}, {"f", &TD{K: "file"}},
		{"id", &TD{K: "id", N: "uint8"}}, {"KEEP", prim("float64")}, {"renamed", &TD{K: "enum", N: "EnS"}}},
	"InB": {{"n", &TD{K: "obj", N: "InA"}}, {"ls", sl(&TD{K: "obj", N: "InA"})}, {"m", sl(sl(ptr(prim("string"))))}, {"lf", sl(&TD{K: "file"})}, {"q", prim("uint64")}},
}
var goFieldOf = map[string]string{"x": "X", "s": "S", "p": "P", "l": "L", "lpp": "Lpp", "self": "Self", "b": "B", "e": "E", "t": "T", "f": "F", "id": "Id", "KEEP": "KEEP", "renamed": "Ren",
	"n": "N", "ls": "Ls", "m": "M", "lf": "Lf", "q": "Q"}

func prim(n string) *TD { return &TD{K: "prim", N: n} }
func ptr(t *TD) *TD     { return &TD{K: "ptr", E: t} }
func sl(t *TD) *TD      { return &TD{K: "list", E: t} }

func (t *TD) fields() []FD {
	if t.N == "" {
		return t.Fs
	}
	return objFieldsTD[t.N]
}

// hasID: the tag sits on the field, also when the type is behind pointers
func (t *TD) tag() string {
	x := t
	for x.K == "ptr" {
		x = x.E
	}
	if x.K == "id" {
		return `gq:",ID"`
	}
	return ""
}

func (t *TD) goType() reflect.Type {
	switch t.K {
	case "prim", "id":
		return primTypes[t.N]
	case "ptr":
		return reflect.PtrTo(t.E.goType())
	case "list":
		return reflect.SliceOf(t.E.goType())
	case "enum":
		switch t.N {
		case "EnS":
			return reflect.TypeOf(EnS(""))
		case "EnI":
			return reflect.TypeOf(EnI(0))
		default:
			return reflect.TypeOf(EnU(0))
		}
	case "time":
		return reflect.TypeOf(time.Time{})
	case "file":
		return reflect.TypeOf(&multipart.FileHeader{})
	case "obj":
		switch t.N {
		case "InA":
			return reflect.TypeOf(InA{})
		case "InB":
			return reflect.TypeOf(InB{})
		}
		fs := []reflect.StructField{}
		for _, f := range t.Fs {
			fs = append(fs, reflect.StructField{Name: strings.ToUpper(f.N[:1]) + f.N[1:], Type: f.T.goType(), Tag: reflect.StructTag(f.T.tag())})
		}
		return reflect.StructOf(fs)
	}
	panic("harness: type " + t.K)
}

func cpsTok(s string) string {
	parts := []string{}
	for _, r := range s {
		parts = append(parts, strconv.Itoa(int(r)))
	}
	return "<<" + strings.Join(parts, ", ") + ">>"
}

// canon writes the tokens of a received value
func (t *TD) canon(v reflect.Value, out *[]string) {
	w := func(s string) { *out = append(*out, s) }
	switch t.K {
	case "ptr":
		if v.IsNil() {
			w("nil")
			return
		}
		w("&")
		t.E.canon(v.Elem(), out)
	case "list":
		if v.IsNil() {
			w("nil")
			return
		}
		w("[")
		for i := 0; i < v.Len(); i++ {
			t.E.canon(v.Index(i), out)
		}
		w("]")
	case "prim", "id":
		switch v.Kind() {
		case reflect.String:
			w("s:" + cpsTok(v.String()))
		case reflect.Bool:
			if v.Bool() {
				w("b:T")
			} else {
				w("b:F")
			}
		case reflect.Float32:
			w(floatTok(v.Float(), 32))
		case reflect.Float64:
			w(floatTok(v.Float(), 64))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			w("i:" + strconv.FormatUint(v.Uint(), 10))
		default:
			w("i:" + strconv.FormatInt(v.Int(), 10))
		}
	case "enum":
		w(fmt.Sprintf("e:%v", v.Interface()))
	case "time":
		tm := v.Interface().(time.Time)
		if tm.IsZero() {
			w("t:zero")
		} else if tm.Location() != time.UTC {
			w("t:location " + tm.Location().String())
		} else if tm.Nanosecond()%1000000 != 0 {
			w("t:nanoseconds")
		} else {
			w("t:" + cpsTok(tm.Format("2006-01-02T15:04:05.000Z")))
		}
	case "file":
		f := v.Interface().(*multipart.FileHeader)
		if f == nil {
			w("nil")
			return
		}
		w("file:" + cpsTok(f.Filename))
	case "obj":
		w("{")
		for i, f := range t.fields() {
			if t.N == "" {
				f.T.canon(v.Field(i), out)
			} else {
				f.T.canon(v.FieldByName(goFieldOf[f.N]), out)
			}
		}
		if t.N == "InA" {
			a := v.Interface().(InA)
			if a.Skipped != 0 || a.hidden != 0 {
				w("skipped field set")
			}
		}
		w("}")
	}
}

// floatTok is the normal form of spec/Args.tla FloatTok of the shortest decimal of the number
func floatTok(f float64, bits int) string {
	s := strconv.FormatFloat(f, 'e', -1, bits)
	if f != f || f > 1.7e308 && s == "+Inf" || s == "-Inf" {
		return "f:" + s
	}
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	i := strings.Index(s, "e")
	e, _ := strconv.Atoi(s[i+1:])
	digs := strings.Replace(s[:i], ".", "", 1)
	e -= len(digs) - 1
	for len(digs) > 0 && digs[len(digs)-1] == '0' {
		digs = digs[:len(digs)-1]
		e++
	}
	if digs == "" {
		return "f:0"
	}
	if neg {
		digs = "-" + digs
	}
	return "f:" + digs + "e" + strconv.Itoa(e)
}

// ---- rendering ----

var escSrc = map[string]string{"b": `\b`, "f": `\f`, "n": `\n`, "r": `\r`, "t": `\t`, "q": `\"`, "s": `\/`, "k": `\\`}

func (v *AV) strSrc(rng *rand.Rand) string {
	var b strings.Builder
	quotes := `"`
	for _, e := range v.Els {
		if e.K == "cp" && (e.C == '\n' || e.C == '"') {
			quotes = `"""` // these only stand in a block string
		}
	}
	b.WriteString(quotes)
	hex := func(c int) {
		if rng.Intn(2) == 0 {
			fmt.Fprintf(&b, `\u%04x`, c)
		} else {
			fmt.Fprintf(&b, `\u%04X`, c)
		}
	}
	for _, e := range v.Els {
		switch e.K {
		case "cp":
			b.WriteRune(rune(e.C))
		case "u":
			hex(e.C)
		case "pair":
			c := e.C - 0x10000
			hex(0xd800 + c>>10)
			hex(0xdc00 + c&0x3ff)
		case "esc":
			b.WriteString(escSrc[e.E])
		}
	}
	b.WriteString(quotes)
	return b.String()
}

func digs(ds []int) string {
	var b strings.Builder
	for _, d := range ds {
		b.WriteByte(byte('0' + d))
	}
	return b.String()
}

func (v *AV) numSrc() string {
	s := ""
	if v.Neg {
		s = "-"
	}
	s += digs(v.Ds)
	if v.K == "float" {
		e := v.E
		if len(v.Fr) > 0 {
			s += "." + digs(v.Fr)
		}
		if v.HasE || len(v.Fr) == 0 {
			switch (len(v.Ds) + len(v.Fr)) % 3 {
			case 0:
				s += "e" + strconv.Itoa(e)
			case 1:
				s += "E" + strconv.Itoa(e)
			default:
				s += fmt.Sprintf("e%+d", e)
			}
		}
	}
	return s
}

func (v *AV) tokens(t *tokw, rng *rand.Rand) {
	switch v.K {
	case "int", "float":
		t.w(v.numSrc())
	case "str":
		t.w(v.strSrc(rng))
	case "bool":
		t.w(boolLit(v.B))
	case "null":
		t.w("null")
	case "enum":
		t.w(v.Name)
	case "var":
		t.w("$", v.Name)
	case "list":
		t.w("[")
		for i := range v.Xs {
			v.Xs[i].tokens(t, rng)
		}
		t.w("]")
	case "obj":
		t.w("{")
		for i := range v.Fs {
			t.w(v.Fs[i].N, ":")
			v.Fs[i].V.tokens(t, rng)
		}
		t.w("}")
	default:
		panic("harness: value " + v.K)
	}
}

func (v *AV) json(b *strings.Builder, rng *rand.Rand, style int) {
	sp := func() {
		if style >= 2 {
			b.WriteString([]string{"", " ", "\n", "\t "}[rng.Intn(4)])
		}
	}
	sp()
	switch v.K {
	case "int", "float":
		b.WriteString(v.numSrc())
	case "str":
		b.WriteString(v.strSrc(rng))
	case "bool":
		b.WriteString(boolLit(v.B))
	case "null":
		b.WriteString("null")
	case "enum":
		b.WriteString(strconv.Quote(v.Name))
	case "list":
		b.WriteByte('[')
		for i := range v.Xs {
			if i > 0 {
				b.WriteByte(',')
			}
			v.Xs[i].json(b, rng, style)
		}
		sp()
		b.WriteByte(']')
	case "obj":
		b.WriteByte('{')
		for i := range v.Fs {
			if i > 0 {
				b.WriteByte(',')
			}
			sp()
			b.WriteString(strconv.Quote(v.Fs[i].N))
			sp()
			b.WriteByte(':')
			v.Fs[i].V.json(b, rng, style)
		}
		sp()
		b.WriteByte('}')
	default:
		panic("harness: json value " + v.K)
	}
	sp()
}

func (c *ArgCase) render() (doc, vars string) {
	rng := rand.New(rand.NewSource(c.Seed))
	t := &tokw{}
	t.w("query")
	if len(c.Vars) > 0 {
		t.w("(")
		for i := range c.Vars {
			v := &c.Vars[i]
			t.w("$", v.Name, ":")
			for j := 0; j < v.Nest; j++ {
				t.w("[")
			}
			t.w(v.TN)
			if v.Bang&1 != 0 {
				t.w("!")
			}
			for j := 0; j < v.Nest; j++ {
				t.w("]")
				if v.Bang>>(j+1)&1 != 0 {
					t.w("!")
				}
			}
			if v.Def.K != "none" {
				t.w("=")
				v.Def.tokens(t, rng)
			}
		}
		t.w(")")
	}
	t.w("{")
	for i := range c.Fields {
		f := &c.Fields[i]
		t.w(f.Alias, ":", "f"+strconv.Itoa(i))
		if len(f.Args) > 0 {
			t.w("(")
			for j := range f.Args {
				t.w(f.Args[j].N, ":")
				f.Args[j].V.tokens(t, rng)
			}
			t.w(")")
		}
	}
	t.w("}")
	doc = joinTokens(t.toks, c.Style, rng)
	b := &strings.Builder{}
	n := 0
	order := rng.Perm(len(c.Vars))
	for _, i := range order {
		v := &c.Vars[i]
		if v.Given.K == "none" {
			continue
		}
		if n > 0 {
			b.WriteByte(',')
		}
		n++
		b.WriteString(strconv.Quote(v.Name) + ":")
		v.Given.json(b, rng, c.Style)
	}
	if n > 0 {
		vars = "{" + b.String() + "}"
	} else if rng.Intn(3) == 0 {
		vars = "{}"
	}
	return
}

// ---- running ----

var argEnums = []interface{}{
	map[string]EnS{"NORTH": "north", "SOUTH": "", "B_2": "B_2", "true_1": "x y"},
	map[string]EnI{"NEG": -128, "ZERO": 0, "MAX": 127},
	map[string]EnU{"LOW": 1, "HIGH": 65535},
}

func runArgCase(c *ArgCase) (o ArgObs) {
	o = ArgObs{ID: c.ID, Got: make([]ArgGot, len(c.Fields)), Looks: []string{}, Errs: [][]string{}}
	fs := []reflect.StructField{}
	vals := []reflect.Value{}
	recording := true
	for i := range c.Fields {
		i := i
		o.Got[i] = ArgGot{Toks: []string{}}
		td := c.Fields[i].Ty
		gt := td.goType()
		tag := reflect.StructTag(td.tag())
		ctxT := reflect.TypeOf(&y.Ctx{})
		strT, errT := reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()
		var ft reflect.Type
		if c.Meth {
			ft = reflect.FuncOf([]reflect.Type{
				reflect.StructOf([]reflect.StructField{{Name: "A", Type: gt, Tag: tag}}), ctxT,
				reflect.StructOf([]reflect.StructField{{Name: "Other", Type: reflect.TypeOf(0)}, {Name: "B", Type: gt, Tag: tag}})}, []reflect.Type{strT, errT}, false)
		} else {
			ft = reflect.FuncOf([]reflect.Type{ctxT, reflect.StructOf([]reflect.StructField{{Name: "A", Type: gt, Tag: tag}, {Name: "B", Type: gt, Tag: tag}, {Name: "Other", Type: reflect.TypeOf(0)}})}, []reflect.Type{strT, errT}, false)
		}
		vals = append(vals, reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
			res := []reflect.Value{reflect.ValueOf("ok"), reflect.Zero(errT)}
			if !recording {
				return res
			}
			o.Got[i].Calls++
			var a, b, other reflect.Value
			if c.Meth {
				a, b, other = in[0].Field(0), in[2].Field(1), in[2].Field(0)
			} else {
				a, b, other = in[1].Field(0), in[1].Field(1), in[1].Field(2)
			}
			td.canon(a, &o.Got[i].Toks)
			td.canon(b, &o.Got[i].Toks)
			o.Got[i].Toks = append(o.Got[i].Toks, "i:"+strconv.FormatInt(other.Int(), 10))
			return res
		}))
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ft, Tag: reflect.StructTag(`gq:"f` + strconv.Itoa(i) + `"`)})
	}
	q := reflect.New(reflect.StructOf(fs)).Elem()
	for i, v := range vals {
		q.Field(i).Set(v)
	}
	s := y.NewSchema()
	for _, e := range argEnums {
		added, err := s.RegisterEnum(e)
		must(err)
		_ = added
	}
	must(s.Parse(q.Interface(), M{}, nil))
	doc, vars := c.render()
	o.Text, o.Vars = doc, vars
	opts := y.ResolveOptions{Variables: vars}
	if c.Form {
		opts.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			k := cpsTok(key)
			if recording {
				o.Looks = append(o.Looks, k)
			}
			for _, b := range c.Bad {
				if b == k {
					if len(k)%2 == 0 {
						return &multipart.FileHeader{Filename: "not this one"}, errors.New("only a part of the file")
					}
					return nil, errors.New("no such file")
				}
			}
			return &multipart.FileHeader{Filename: strings.Clone(key)}, nil
		}
	}
	if c.Cache {
		zero := 0
		s.SetCacheRules(&zero)
		recording = false
		s.Resolve([]byte(doc), y.ResolveOptions{Variables: vars, GetFormFile: opts.GetFormFile})
		recording = true
	}
	errs := s.Resolve([]byte(doc), opts)
	ob := observe(s.Result, errs)
	o.Env, o.Result = ob.Env, ob.Result
	for _, e := range ob.Errs {
		o.Errs = append(o.Errs, e.Path)
	}
	var env struct{ Data map[string]*string }
	if err := json.Unmarshal(s.Result, &env); err == nil {
		for i := range c.Fields {
			v, has := env.Data[c.Fields[i].Alias]
			switch {
			case !has:
				o.Got[i].Data = "absent"
			case v == nil:
				o.Got[i].Data = "null"
			default:
				o.Got[i].Data = *v
			}
		}
	}
	return
}

func init() {
	suites["args"] = func(raw []byte) interface{} {
		var c ArgCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runArgCase(&c)
	}
}

// ---- generation ----

type argProf struct {
	vars  int  // percent of values that are variables
	wrong int  // percent of cases with something wrong in it
	files bool // file arguments
	depth int
}

type argGen struct {
	rng   *rand.Rand
	p     argProf
	c     *ArgCase
	wrong int // how many wrong values may still be made
	keys  []string
}

func (g *argGen) pct(n int) bool { return g.rng.Intn(100) < n }

var intNames = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}

func (g *argGen) leafTD() *TD {
	if g.p.files && g.pct(60) {
		return &TD{K: "file"}
	}
	switch g.rng.Intn(10) {
	case 0, 1:
		return prim(intNames[g.rng.Intn(10)])
	case 2:
		return prim([]string{"float32", "float64"}[g.rng.Intn(2)])
	case 3:
		return prim("bool")
	case 4:
		return prim("string")
	case 5:
		return &TD{K: "enum", N: []string{"EnS", "EnI", "EnU"}[g.rng.Intn(3)]}
	case 6:
		return &TD{K: "time"}
	case 7:
		if g.pct(50) {
			return &TD{K: "file"}
		}
		return &TD{K: "obj", N: "InB"}
	default:
		return &TD{K: "obj", N: []string{"InA", "InB"}[g.rng.Intn(2)]}
	}
}

func (g *argGen) td(depth int) *TD {
	t := g.anyTD(depth)
	if t.K == "list" && t.base().K == "id" {
		return g.td(depth) // the ID tag does not reach through lists
	}
	return t
}

func (g *argGen) anyTD(depth int) *TD {
	if depth > 0 && g.pct(45) {
		switch g.rng.Intn(5) {
		case 0, 1:
			return sl(g.td(depth - 1))
		case 2:
			t := &TD{K: "obj"}
			for i := 0; i < 1+g.rng.Intn(3); i++ {
				t.Fs = append(t.Fs, FD{string(rune('a' + i)), g.td(depth - 1)})
			}
			return t
		default:
			t := g.td(depth - 1)
			if t.K == "file" && g.pct(80) {
				return t
			}
			return ptr(t)
		}
	}
	if g.pct(12) {
		return &TD{K: "id", N: append([]string{"string", "string", "string"}, intNames...)[g.rng.Intn(13)]}
	}
	return g.leafTD()
}

func (t *TD) decl() (nest int, tn string) {
	switch t.K {
	case "ptr":
		return t.E.decl()
	case "list":
		n, tn := t.E.decl()
		return n + 1, tn
	case "prim":
		switch t.N {
		case "bool":
			return 0, "Boolean"
		case "string":
			return 0, "String"
		case "float32", "float64":
			return 0, "Float"
		}
		return 0, "Int"
	case "id":
		return 0, "ID"
	case "time":
		return 0, "Time"
	case "file":
		return 0, "File"
	}
	return 0, t.N
}

func (t *TD) base() *TD {
	for t.K == "ptr" || t.K == "list" {
		t = t.E
	}
	return t
}

func (t *TD) nullable() bool { return t.K == "ptr" || t.K == "list" || t.K == "file" }

// dsOf is the decimal digits of a number
func dsOf(s string) []int {
	r := []int{}
	for i := range s {
		r = append(r, int(s[i]-'0'))
	}
	return r
}

func (g *argGen) intFor(tn string, bad bool) AV {
	bits := map[string]uint{"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64}[tn]
	signed := tn[0] == 'i'
	// around a power of two or small
	limit := func(b uint) (string, string) { // max, max+1
		m := ^uint64(0) >> (64 - b)
		s := strconv.FormatUint(m, 10)
		if b == 64 {
			return s, "18446744073709551616"
		}
		return s, strconv.FormatUint(m+1, 10)
	}
	b := bits
	if signed {
		b--
	}
	max, over := limit(b)
	if bad {
		switch g.rng.Intn(4) {
		case 0:
			return AV{K: "int", Ds: dsOf(over)}
		case 1:
			if !signed {
				return AV{K: "int", Neg: true, Ds: []int{1 + g.rng.Intn(9)}}
			}
			o := dsOf(over)
			o[len(o)-1]++ // -(max+2); the last digit of a power of two is never 9
			return AV{K: "int", Neg: true, Ds: o}
		case 2:
			return AV{K: "int", Ds: append(dsOf(over), g.rng.Intn(10)), Neg: signed && g.pct(40)}
		default:
			n := 20 + g.rng.Intn(12)
			ds := []int{1 + g.rng.Intn(9)}
			for len(ds) < n {
				ds = append(ds, g.rng.Intn(10))
			}
			return AV{K: "int", Ds: ds, Neg: signed && g.pct(50)}
		}
	}
	switch g.rng.Intn(4) {
	case 0:
		return AV{K: "int", Ds: dsOf(max), Neg: signed && g.pct(40)}
	case 1:
		if signed {
			return AV{K: "int", Ds: dsOf(over), Neg: true}
		}
		return AV{K: "int", Ds: []int{0}}
	case 2:
		return AV{K: "int", Ds: dsOf(strconv.Itoa(g.rng.Intn(128))), Neg: false}
	default:
		v := g.rng.Uint64() >> (64 - b)
		v >>= uint(g.rng.Intn(int(b)))
		return AV{K: "int", Ds: dsOf(strconv.FormatUint(v, 10)), Neg: signed && v > 0 && g.pct(50)}
	}
}

// certOf rounds with exact arithmetic
func certOf(r *big.Rat, w int) *fcert {
	var f float64
	c := &fcert{Bits: []int{}, Ds: []int{}}
	var bits uint64
	if w == 32 {
		f32, _ := r.Float32()
		f, bits = float64(f32), uint64(math.Float32bits(f32))
	} else {
		f, _ = r.Float64()
		bits = math.Float64bits(f)
	}
	if math.IsInf(f, 0) {
		c.Over = true
		return c
	}
	for i := w - 1; i >= 0; i-- {
		c.Bits = append(c.Bits, int(bits>>uint(i)&1))
	}
	s := strconv.FormatFloat(f, 'e', -1, w)
	i := strings.Index(s, "e")
	c.Ds = dsOf(strings.Replace(s[:i], ".", "", 1))
	c.E, _ = strconv.Atoi(s[i+1:])
	c.E -= len(c.Ds) - 1
	return c
}

// hardFloat is a number at the limits of the type, halfway between two numbers of the type, next to that, or with many digits
func (g *argGen) hardFloat(tn string, bad bool) AV {
	w, p, emin, emax := 64, 53, -1074, 971
	if tn == "float32" {
		w, p, emin, emax = 32, 24, -149, 104
	}
	for {
		r := new(big.Rat)
		ds, e := "", 0
		if !bad && g.pct(30) {
			for n := 17 + g.rng.Intn(30); n > 0; n-- {
				ds += strconv.Itoa(g.rng.Intn(10))
			}
			ds = "1" + ds
			if g.pct(50) {
				e = -g.rng.Intn(60)
			}
		} else {
			// 2m+half units of half a last place
			m := new(big.Int).Rand(g.rng, new(big.Int).Lsh(big.NewInt(1), uint(p)))
			k := -70 + g.rng.Intn(140)
			switch g.rng.Intn(7) {
			case 0:
				m.SetInt64(int64(g.rng.Intn(5))) // about the smallest ones
				k = emin
				if w == 64 {
					continue // 750 digits
				}
			case 1:
				m.Sub(new(big.Int).Lsh(big.NewInt(1), uint(p)), big.NewInt(1)) // the largest one
				k = emax
			case 2:
				m.Lsh(big.NewInt(1), uint(p-1)) // a power of two: the neighbours are not equally far away
				if g.pct(30) {
					k = emin
					if w == 64 {
						k = -100
					}
				}
			case 3:
				m.Sub(new(big.Int).Lsh(big.NewInt(1), uint(p)), big.NewInt(1))
			}
			if bad {
				m.Sub(new(big.Int).Lsh(big.NewInt(1), uint(p)), big.NewInt(1))
				k = emax
			}
			m.Lsh(m, 1)
			if q := g.rng.Intn(4); q < 2 || bad {
				m.Add(m, big.NewInt(1))
			} else if q == 2 && m.Sign() > 0 {
				m.Sub(m, big.NewInt(1))
			}
			k--
			if k >= 0 {
				r.SetInt(m.Lsh(m, uint(k)))
			} else {
				r.SetFrac(m, new(big.Int).Lsh(big.NewInt(1), uint(-k)))
				e = k
			}
			s := r.FloatString(-e) // exact: there is a power of ten for every power of two
			ds = strings.TrimLeft(strings.Replace(s, ".", "", 1), "0")
			if ds == "" {
				continue
			}
			// next to it
			switch g.rng.Intn(4) {
			case 0:
				if !bad {
					i := len(ds) - 1
					b := []byte(ds)
					for i >= 0 && b[i] == '0' {
						b[i] = '9'
						i--
					}
					b[i]--
					ds = string(b)
				}
			case 1:
				for n := g.rng.Intn(20); n > 0; n-- {
					ds += "0"
					e--
				}
				ds += "1"
				e--
			}
		}
		for len(ds) > 1 && ds[len(ds)-1] == '0' && e < 0 {
			ds, e = ds[:len(ds)-1], e+1
		}
		ds = strings.TrimLeft(ds, "0")
		if ds == "" || len(ds) > 330 {
			continue
		}
		v := AV{K: "float", Neg: g.pct(30)}
		all := dsOf(ds)
		if e == 0 && g.pct(60) {
			v.K, v.Ds = "int", all
		} else {
			if cut := g.rng.Intn(len(all) + 1); g.pct(40) && -e < 120 {
				// no exponent
				for len(all) <= -e {
					all = append([]int{0}, all...)
				}
				v.Ds, v.Fr = all[:len(all)+e], all[len(all)+e:]
			} else {
				v.HasE = true
				if cut == 0 {
					v.Ds, v.Fr = []int{0}, all
				} else {
					v.Ds, v.Fr = all[:cut], all[cut:]
				}
				v.E = e + len(v.Fr)
			}
		}
		d, _ := new(big.Int).SetString(ds, 10)
		ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(iabs(e))), nil)
		if e < 0 {
			r.SetFrac(d, ten)
		} else {
			r.SetInt(d.Mul(d, ten))
		}
		v.C32, v.C64 = certOf(r, 32), certOf(r, 64)
		if w == 32 && v.C32.Over != bad || w == 64 && v.C64.Over != bad {
			continue
		}
		return v
	}
}

func iabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (g *argGen) floatFor(tn string, bad bool) AV {
	if g.pct(25) {
		return g.hardFloat(tn, bad)
	}
	n := 15
	emax := 280
	if tn == "float32" {
		n, emax = 6, 30
	}
	ds := []int{}
	if k := g.rng.Intn(n); k > 0 {
		ds = append(ds, 1+g.rng.Intn(9))
		for len(ds) < k {
			ds = append(ds, g.rng.Intn(10))
		}
	} else {
		ds = append(ds, 0)
	}
	v := AV{K: "float", Ds: ds, Neg: g.pct(30)}
	for k := g.rng.Intn(n + 1 - len(ds)); k > 0; k-- {
		v.Fr = append(v.Fr, g.rng.Intn(10))
	}
	if len(v.Fr) == 0 && g.pct(40) {
		v.K = "int"
		if v.Ds[0] == 0 {
			v.Neg = false
		}
		return v
	}
	if len(v.Fr) == 0 || g.pct(40) {
		v.HasE = true
		if g.pct(50) {
			v.E = g.rng.Intn(13) - 6
		} else {
			v.E = g.rng.Intn(2*emax) - emax
			if tn == "float32" && v.E > 25 {
				v.E = 25
			}
			if v.E > 280 {
				v.E = 280
			}
			if tn == "float32" && v.E < -25 {
				v.E = -25
			}
		}
	}
	if bad {
		v.Ds = []int{1 + g.rng.Intn(9)}
		v.HasE = true
		if tn == "float32" {
			v.E = 45 + g.rng.Intn(200)
		} else {
			v.E = 320 + g.rng.Intn(500)
		}
	}
	return v
}

var rawCPs = []int{' ', 'a', 'Z', '0', '9', '_', '#', ',', '{', '}', '(', ')', '[', ']', '$', '@', ':', '!', '.', '=', '&', '|', '\'', '<', '>', 0x7f, 0xe9, 0x7ff, 0x800, 0xfffd, 0x2028, 0xffff, 0x1f600, 0x10ffff, 0x4e2d, 0xa0}
var uCPs = []int{0, 1, 9, 10, 13, 31, 34, 47, 92, 127, 128, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 'A'}

func (g *argGen) str(js bool, n int) AV {
	v := AV{K: "str"}
	for i := 0; i < n; i++ {
		switch g.rng.Intn(6) {
		case 0, 1, 2:
			if g.pct(60) {
				v.Els = append(v.Els, El{K: "cp", C: 'a' + g.rng.Intn(26)})
			} else {
				v.Els = append(v.Els, El{K: "cp", C: rawCPs[g.rng.Intn(len(rawCPs))]})
			}
		case 3:
			v.Els = append(v.Els, El{K: "esc", E: []string{"b", "f", "n", "r", "t", "q", "s", "k"}[g.rng.Intn(8)]})
		case 4:
			v.Els = append(v.Els, El{K: "u", C: uCPs[g.rng.Intn(len(uCPs))]})
		case 5:
			if js || g.pct(50) {
				v.Els = append(v.Els, El{K: "pair", C: 0x10000 + g.rng.Intn(0x100000)})
			} else {
				v.Els = append(v.Els, El{K: "u", C: 0x20 + g.rng.Intn(0xd000)})
			}
		}
	}
	return v
}

// block is a string over several lines, written as a block string. Its lines start with no blanks and it neither starts nor ends with
// an empty line: what is done with those is left open
func (g *argGen) block() AV {
	v := plain("x")
	for n := g.rng.Intn(8); n >= 0; n-- {
		switch g.rng.Intn(5) {
		case 0, 1:
			for k := 1 + g.rng.Intn(3); k > 0; k-- {
				v.Els = append(v.Els, El{K: "cp", C: '\n'})
			}
		case 2:
			v.Els = append(v.Els, El{K: "cp", C: '"'})
			if g.pct(30) {
				v.Els = append(v.Els, El{K: "cp", C: '"'})
			}
		case 3:
			v.Els = append(v.Els, g.str(true, 1).Els...)
			if e := &v.Els[len(v.Els)-1]; e.K != "cp" {
				*e = El{K: "cp", C: ' '}
			}
		}
		v.Els = append(v.Els, plain([]string{"a", "B9", "#", ",", "é", "...", "{x}"}[g.rng.Intn(7)]).Els...)
	}
	return v
}

func plain(s string) AV {
	v := AV{K: "str"}
	for _, r := range s {
		v.Els = append(v.Els, El{K: "cp", C: int(r)})
	}
	return v
}

func (g *argGen) key(js bool) AV {
	if len(g.keys) == 0 || g.pct(40) {
		v := g.str(js, g.rng.Intn(5))
		return v
	}
	return plain(g.keys[g.rng.Intn(len(g.keys))])
}

var memberNames = map[string][]string{"EnS": {"NORTH", "SOUTH", "B_2", "true_1"}, "EnI": {"NEG", "ZERO", "MAX"}, "EnU": {"LOW", "HIGH"}}

func (g *argGen) timeText(bad bool) string {
	y, mo := g.rng.Intn(10000), 1+g.rng.Intn(12)
	if g.pct(30) {
		y, mo = []int{1900, 2000, 2023, 2024, 2100, 1, 9999}[g.rng.Intn(7)], 2
	}
	d := 1 + g.rng.Intn(28)
	last := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	if g.pct(30) {
		d = last
	}
	h, mi, s, ms := g.rng.Intn(24), g.rng.Intn(60), g.rng.Intn(60), g.rng.Intn(1000)
	if y == 1 && mo == 1 && d == 1 {
		y = 2
	}
	if bad {
		switch g.rng.Intn(7) {
		case 0:
			d = last + 1
		case 1:
			mo = []int{0, 13}[g.rng.Intn(2)]
		case 2:
			h = 24
		case 3:
			mi = 60
		case 4:
			s = 60
		case 5:
			return ""
		case 6:
			t := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", y, mo, d, h, mi, s, ms)
			switch g.rng.Intn(5) {
			case 0:
				return t[:23]
			case 1:
				return t + " "
			case 2:
				return strings.Replace(t, "T", " ", 1)
			case 3:
				return t[:19] + "Z"
			default:
				return t[:10]
			}
		}
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", y, mo, d, h, mi, s, ms)
}

// wrongKind gives a value no reading of the type accepts
func (g *argGen) wrongKind(t *TD, mode string) AV {
	base := t.base()
	opts := []string{}
	has := func(k string) { opts = append(opts, k) }
	switch base.K {
	case "prim":
		switch base.N {
		case "bool":
			has("str")
			has("enum")
			if mode == "json" {
				opts = opts[:1]
			}
			has("obj")
			has("float")
		case "string":
			has("int")
			has("float")
			has("bool")
			has("obj")
			if mode != "json" {
				has("enum")
			}
		case "float32", "float64":
			has("str")
			has("bool")
			has("obj")
		default:
			has("str")
			has("bool")
			has("obj")
			has("float")
		}
		if mode != "json" {
			has("enum")
		}
	case "enum":
		has("int")
		has("float")
		has("bool")
		has("obj")
	case "id":
		has("float")
		has("bool")
		has("obj")
		if mode != "json" {
			has("enum")
		}
	case "time", "file":
		has("int")
		has("float")
		has("bool")
		has("obj")
		if mode != "json" {
			has("enum")
		}
	case "obj":
		has("int")
		has("str")
		has("bool")
		has("float")
		if mode != "json" {
			has("enum")
		}
	}
	if t.K != "list" && (t.K != "ptr" || t.E.K != "list") {
		has("list")
	}
	switch opts[g.rng.Intn(len(opts))] {
	case "int":
		return AV{K: "int", Ds: []int{g.rng.Intn(10)}}
	case "float":
		return AV{K: "float", Ds: []int{1}, Fr: []int{5}}
	case "str":
		return plain([]string{"", "1", "true", "x"}[g.rng.Intn(4)])
	case "bool":
		return AV{K: "bool", B: []string{"T", "F"}[g.rng.Intn(2)]}
	case "enum":
		return AV{K: "enum", Name: []string{"NORTH", "ZERO", "foo", "nullx"}[g.rng.Intn(3)]}
	case "list":
		return AV{K: "list", Xs: []AV{}}
	default:
		return AV{K: "obj", Fs: []AF{}}
	}
}

// badLeaf: the right kind, but no value of the type
func (g *argGen) badLeaf(t *TD, mode string) (AV, bool) {
	switch t.K {
	case "prim":
		switch t.N {
		case "bool", "string":
			return AV{}, false
		case "float32", "float64":
			return g.floatFor(t.N, true), true
		}
		return g.intFor(t.N, true), true
	case "enum":
		return AV{K: "enum", Name: []string{"north", "NORTHX", "NORT", "zero", "HIGH_", "x"}[g.rng.Intn(6)]}, true
	case "id":
		if t.N == "string" {
			return AV{}, false
		}
		if g.pct(50) {
			return plain([]string{"", "abc", "1a", "1.5", " 1", "--1", "0x10", "1_0"}[g.rng.Intn(8)]), true
		}
		v := g.intFor(t.N, true)
		return plain(v.numSrc()), true
	case "time":
		return plain(g.timeText(true)), true
	}
	return AV{}, false
}

// value makes a value for a type. mode: lit def json
func (g *argGen) value(t *TD, mode string, depth int) AV {
	if g.wrong > 0 && g.pct(25) {
		g.wrong--
		if t.K == "obj" && g.pct(50) {
			v := g.value(t, mode, depth)
			if v.K == "obj" {
				n := []string{"nope", "skipped", "hidden", "X", "Self", "keep", "kEEP", "Ren", "ren"}[g.rng.Intn(9)]
				at := g.rng.Intn(len(v.Fs) + 1)
				v.Fs = append(v.Fs[:at:at], append([]AF{{n, AV{K: "int", Ds: []int{1}}}}, v.Fs[at:]...)...)
			}
			return v
		}
		if v, ok := g.badLeaf(t, mode); ok && g.pct(70) {
			return v
		}
		return g.wrongKind(t, mode)
	}
	if mode == "lit" && g.pct(g.p.vars) {
		if v, ok := g.variable(t, depth); ok {
			return v
		}
	}
	if t.nullable() && g.pct(12) {
		return AV{K: "null"}
	}
	switch t.K {
	case "ptr":
		return g.value(t.E, mode, depth)
	case "list":
		v := AV{K: "list", Xs: []AV{}}
		n := g.rng.Intn(4)
		if depth <= 0 {
			n = g.rng.Intn(2)
		}
		if b := t.E.base().K; b != "obj" && t.E.K != "list" && b != "file" && g.rng.Intn(60) == 0 {
			n = []int{15, 17, 33, 63, 64, 65, 127, 129, 200, 257}[g.rng.Intn(10)]
		}
		for i := 0; i < n; i++ {
			v.Xs = append(v.Xs, g.value(t.E, mode, depth-1))
		}
		return v
	case "obj":
		v := AV{K: "obj", Fs: []AF{}}
		fs := t.fields()
		keep := 50
		if len(fs) > 6 {
			keep = 25
		}
		for _, i := range g.rng.Perm(len(fs)) {
			if !g.pct(keep) {
				continue
			}
			b := fs[i].T.base()
			if depth <= 0 && b.K == "obj" && b.N != "" {
				continue
			}
			v.Fs = append(v.Fs, AF{fs[i].N, g.value(fs[i].T, mode, depth-1)})
		}
		return v
	case "prim":
		switch t.N {
		case "bool":
			return AV{K: "bool", B: []string{"T", "F"}[g.rng.Intn(2)]}
		case "string":
			if mode != "json" && g.pct(12) {
				return g.block()
			}
			return g.str(mode == "json", g.rng.Intn(6))
		case "float32", "float64":
			return g.floatFor(t.N, false)
		}
		return g.intFor(t.N, false)
	case "enum":
		ms := memberNames[t.N]
		return AV{K: "enum", Name: ms[g.rng.Intn(len(ms))]}
	case "id":
		if t.N == "string" {
			if mode != "json" && g.pct(12) {
				return g.block()
			}
			return g.str(mode == "json", g.rng.Intn(6))
		}
		v := g.intFor(t.N, false)
		if mode != "json" && g.pct(30) {
			return v
		}
		return plain(v.numSrc())
	case "time":
		return plain(g.timeText(false))
	case "file":
		return g.key(mode == "json")
	}
	panic("harness: " + t.K)
}

func (t *TD) named() bool {
	b := t.base()
	return b.K != "obj" || b.N != ""
}

var varNames = []string{"v", "w", "vv", "V", "a", "long_name1", "on", "query", "x", "y2", "_z"}

func (g *argGen) variable(t *TD, depth int) (AV, bool) {
	if !t.named() {
		return AV{}, false
	}
	nest, tn := t.decl()
	// an earlier variable
	if g.pct(25) {
		for _, i := range g.rng.Perm(len(g.c.Vars)) {
			v := g.c.Vars[i]
			if v.Nest == nest && v.TN == tn {
				if v.Given.K == "null" && !t.nullable() || v.Given.K == "none" && v.Def.K == "null" && !t.nullable() {
					continue
				}
				if !sameNullability(t, &v) {
					continue
				}
				return AV{K: "var", Name: v.Name}, true
			}
		}
	}
	free := ""
	for _, i := range g.rng.Perm(len(varNames)) {
		used := false
		for _, v := range g.c.Vars {
			if v.Name == varNames[i] {
				used = true
			}
		}
		if !used {
			free = varNames[i]
			break
		}
	}
	if free == "" {
		return AV{}, false
	}
	v := ArgVar{Name: free, Nest: nest, TN: tn, Bang: g.rng.Intn(8), Def: AV{K: "none"}, Given: AV{K: "none"}}
	if g.wrong > 0 && g.pct(40) {
		g.wrong--
		switch g.rng.Intn(4) {
		case 0:
			return AV{K: "var", Name: free}, true // not declared
		case 1:
			v.Nest++
		case 2:
			if v.Nest > 0 {
				v.Nest--
			} else {
				v.TN = otherType(tn, g.rng)
			}
		case 3:
			v.TN = otherType(tn, g.rng)
		}
		v.Given = g.value(t, "json", depth)
		g.c.Vars = append(g.c.Vars, v)
		return AV{K: "var", Name: free}, true
	}
	// the variable exists before its values are made, they could not mention it anyway
	g.c.Vars = append(g.c.Vars, v)
	at := len(g.c.Vars) - 1
	mode := g.rng.Intn(10)
	if g.wrong > 0 && g.pct(20) {
		g.wrong--
		return AV{K: "var", Name: free}, true // neither given nor default
	}
	if mode < 4 || mode >= 8 {
		g.c.Vars[at].Given = g.value(t, "json", depth)
	}
	if mode >= 4 {
		g.c.Vars[at].Def = g.value(t, "def", depth)
	}
	return AV{K: "var", Name: free}, true
}

// a value made for one type must stay free of the documented leniencies when used for another one with the same
// declaration: only types that are equal up to the width of numbers are reused
func sameNullability(t *TD, v *ArgVar) bool {
	var ok func(t *TD, x *AV) bool
	ok = func(t *TD, x *AV) bool {
		switch x.K {
		case "none":
			return true
		case "null":
			return t.nullable()
		case "list":
			for t.K == "ptr" {
				t = t.E
			}
			if t.K != "list" {
				return true
			}
			for i := range x.Xs {
				if !ok(t.E, &x.Xs[i]) {
					return false
				}
			}
			return true
		case "int", "float":
			b := t.base()
			if b.K == "id" || b.K == "prim" && (b.N == "bool" || b.N == "string") {
				return true
			}
			if b.K == "prim" && (b.N == "float32" || b.N == "float64") {
				// the number of digits is limited by the width
				return b.N == "float64" && x.E > -200 && x.E < 200 || len(x.Ds)+len(x.Fr) <= 6 && x.E > -20 && x.E < 20
			}
			return b.K != "prim" || !(x.Neg && len(x.Ds) == 1 && x.Ds[0] == 0)
		case "str":
			return t.base().K != "id" || t.base().N == "string"
		}
		return true
	}
	return ok(t, &v.Def) && ok(t, &v.Given)
}

func otherType(tn string, rng *rand.Rand) string {
	all := []string{"Int", "Float", "Boolean", "InA", "InB", "EnS", "EnI", "EnU", "Nope", "int", "Query"}
	if tn == "Int" || tn == "Float" || tn == "Boolean" || tn == "InA" || tn == "InB" {
		all = append(all, "String", "ID", "Time", "File")
	}
	if tn == "String" {
		all = append(all, "ID", "Time", "File")
	}
	for {
		x := all[rng.Intn(len(all))]
		if x != tn {
			return x
		}
	}
}

func genArgCase(rng *rand.Rand, p argProf) *ArgCase {
	c := &ArgCase{Vars: []ArgVar{}, Bad: []string{}, Style: rng.Intn(4), Seed: rng.Int63(), Meth: rng.Intn(4) == 0, Form: true, Cache: rng.Intn(8) == 0}
	g := &argGen{rng: rng, p: p, c: c, keys: []string{"file", "a.b", "0", "FILE"}}
	if p.files {
		c.Form = !g.pct(10)
		if g.pct(25) {
			c.Bad = append(c.Bad, cpsTok(g.keys[rng.Intn(4)]))
		}
	}
	if g.pct(p.wrong) {
		g.wrong = 1 + rng.Intn(2)
	}
	n := 1 + rng.Intn(3)
	names := []string{"r", "r2", "R", "zz"}
	for i := 0; i < n; i++ {
		f := ArgField{Alias: names[i], Ty: g.td(p.depth), Args: []AF{}}
		if i > 0 && g.pct(40) {
			f.Ty = c.Fields[0].Ty
		}
		for _, j := range rng.Perm(3) {
			if g.pct(25) {
				continue
			}
			if j == 2 {
				f.Args = append(f.Args, AF{"other", g.value(prim("int"), "lit", 0)})
			} else {
				f.Args = append(f.Args, AF{[]string{"a", "b"}[j], g.value(f.Ty, "lit", 2)})
			}
		}
		if g.wrong > 0 && g.pct(6) {
			g.wrong--
			f.Args = append(f.Args, AF{[]string{"A", "c", "Other", "aa"}[rng.Intn(4)], AV{K: "int", Ds: []int{1}}})
		}
		c.Fields = append(c.Fields, f)
	}
	if g.pct(20) && p.vars > 0 {
		// a variable nobody uses
		t := g.leafTD()
		if t.named() {
			nest, tn := t.decl()
			v := ArgVar{Name: "unused", Nest: nest, TN: tn, Def: AV{K: "none"}, Given: AV{K: "none"}}
			if g.pct(50) {
				v.Given = g.value(t, "json", 1)
			}
			c.Vars = append(c.Vars, v)
		}
	}
	sort.SliceStable(c.Vars, func(i, j int) bool { return c.Vars[i].Name < c.Vars[j].Name && c.Seed%2 == 0 })
	return c
}

func init() {
	type ac struct {
		id    string
		profs []argProf
		gen   []string
		rule  string
	}
	for _, a := range []ac{
		{"C06", []argProf{{0, 0, false, 3}, {0, 70, false, 2}}, []string{"lit"}, "argument types built from all input types up to nesting 3 and literals for them, of which part is made unrepresentable; a case is distinct when types, values or layout differ"},
		{"C07", []argProf{{60, 0, false, 2}, {70, 60, false, 2}}, []string{"var"}, "argument types and values as for C06, given as variables, defaults or both, at the top or inside lists and objects, used once or repeatedly"},
		{"C24", []argProf{{0, 0, true, 3}, {50, 20, true, 2}}, []string{"file"}, "file arguments at the top, behind pointers, in lists and input objects, as literal, variable or default, with failing lookups and requests without file support"},
	} {
		a := a
		checks[a.id] = checkDef{id: a.id, level: "model_checking", rule: a.rule, run: func(r *run) error {
			cs := []interface{}{}
			for _, conf := range a.gen {
				gs, err := r.specArgCases(conf, r.n(3000, 40000))
				if err != nil {
					return err
				}
				cs = append(cs, gs...)
			}
			for i := 0; i < r.n(3000, 60000); i++ {
				cs = append(cs, genArgCase(r.rng, a.profs[i%len(a.profs)]))
			}
			return r.validate("args", "ArgsTrace", cs, []string{})
		}}
	}
}

// specArgCases lets TLC enumerate the cases of a configuration of spec/ArgsGen
func (r *run) specArgCases(conf string, max int) ([]interface{}, error) {
	lines, err := r.specLines("ArgsGen", conf, r.n(1, 2), max)
	if err != nil {
		return nil, err
	}
	res := []interface{}{}
	for _, l := range lines {
		var c ArgCase
		if err := json.Unmarshal([]byte(l), &c); err != nil {
			return nil, fmt.Errorf("ArgsGen case %s: %v", l, err)
		}
		c.Style, c.Seed, c.Meth = r.rng.Intn(4), r.rng.Int63(), r.rng.Intn(4) == 0
		res = append(res, &c)
	}
	return res, nil
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"mime/multipart"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	yarql "github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/tester"
)

// ---- definitions, see spec/Schema.tla ----

type sTag struct {
	Has   bool     `json:"has"`
	Name  string   `json:"name"`
	Chars []int    `json:"chars"`
	Mods  []string `json:"mods"`
}

type sType struct {
	K        string    `json:"k"`
	B        string    `json:"b,omitempty"`
	N        string    `json:"n,omitempty"`
	E        *sType    `json:"e,omitempty"`
	Fs       *[]sField `json:"fs,omitempty"`
	Params   *[]sType  `json:"params,omitempty"`
	Outs     *[]sType  `json:"outs,omitempty"`
	Variadic *bool     `json:"variadic,omitempty"`
}

type sField struct {
	Go   string `json:"go"`
	Low  string `json:"low"`
	Up2  bool   `json:"up2"`
	Good bool   `json:"good"`
	Exp  bool   `json:"exp"`
	Emb  bool   `json:"emb"`
	Tag  sTag   `json:"tag"`
	T    sType  `json:"t"`
}

type sMethod struct {
	Go   string `json:"go"`
	Res  bool   `json:"res"`
	Low  string `json:"low"`
	Up2  bool   `json:"up2"`
	Good bool   `json:"good"`
	Prom bool   `json:"prom"` // promoted from an embedded struct, not written down again
	T    sType  `json:"t"`
}

type sDecl struct {
	N       string    `json:"n"`
	K       string    `json:"k"`
	Ql      string    `json:"ql"`
	Tgood   bool      `json:"tgood"` // the GraphQL name is one
	Loc     bool      `json:"loc"`   // declared inside of a function
	Under   string    `json:"under"`
	Fs      []sField  `json:"fs"`
	Ms      []sMethod `json:"ms"`
	Impl    []string  `json:"impl"`
	Members []string  `json:"members"`
}

type sDir struct {
	N      string   `json:"n"`
	Locs   []string `json:"locs"`
	Desc   string   `json:"desc"`
	Params []sType  `json:"params"`
}

type sDef struct {
	I     int     `json:"i"` // position in the generated source
	Decls []sDecl `json:"decls"`
	Q     sType   `json:"q"`
	Mu    sType   `json:"mu"`
	Dirs  []sDir  `json:"dirs"`
	Known string  `json:"known"` // a definition on which the code is known to deviate, see known-findings.json
}

// ---- Go source ----

func (d *sDef) prefix() string { return fmt.Sprintf("C%dx", d.I) }

func (d *sDef) goName(n string) string {
	n = strings.ReplaceAll(n, "%", d.prefix())
	n = strings.ReplaceAll(n, "~", "ö")
	n = strings.TrimSuffix(n, "'") // a type inside of a function with the name of another one
	return strings.ReplaceAll(n, "^", "Ä")
}

func (d *sDef) goType(t sType) string {
	switch t.K {
	case "basic":
		return t.B
	case "named":
		return d.goName(t.N)
	case "ptr":
		return "*" + d.goType(*t.E)
	case "slice":
		return "[]" + d.goType(*t.E)
	case "array":
		// a method on a struct of an array without a size and one pointer that returns an array is called wrongly by
		// reflect of Go 1.26 and later: no structs without a size in arrays
		if t.E.K == "anon" {
			return "[2]struct{" + d.goFields(append((*t.E.Fs)[:len(*t.E.Fs):len(*t.E.Fs)], sField{Go: "_", T: sType{K: "basic", B: "byte"}, Tag: sTag{Has: true, Name: "-"}}), "; ") + "}"
		}
		return "[2]" + d.goType(*t.E)
	case "anon":
		return "struct{" + d.goFields(*t.Fs, "; ") + "}"
	case "func":
		return "func" + d.goSig(t)
	case "time":
		return "time.Time"
	case "file":
		return "multipart.FileHeader"
	case "ctx":
		return "yarql.Ctx"
	case "attrid":
		return "yarql.AttrIsID"
	case "error":
		return "error"
	case "any":
		return "interface{}"
	case "map":
		return "map[string]int"
	case "chan":
		return "chan int"
	case "complex":
		return "complex128"
	case "uintptr":
		return "uintptr"
	case "unsafe":
		return "unsafe.Pointer"
	case "loops":
		return "GLoopS"
	case "loopp":
		return "GLoopP"
	case "loopm":
		return "GLoopM"
	case "loopa":
		return "GLoopA"
	case "loopf":
		return "GLoopF"
	}
	panic("harness: unknown type " + t.K)
}

func (d *sDef) goSig(t sType) string {
	ps := []string{}
	for i, p := range *t.Params {
		x := d.goType(p)
		if *t.Variadic && i == len(*t.Params)-1 {
			x = "..." + x[2:]
		}
		ps = append(ps, fmt.Sprintf("a%d %s", i, x))
	}
	os := []string{}
	for _, o := range *t.Outs {
		os = append(os, d.goType(o))
	}
	return "(" + strings.Join(ps, ", ") + ") (" + strings.Join(os, ", ") + ")"
}

func (d *sDef) goFields(fs []sField, sep string) string {
	xs := []string{}
	for _, f := range fs {
		s := d.goName(f.Go) + " "
		if f.Emb {
			s = ""
		}
		s += d.goType(f.T)
		if f.Tag.Has {
			// blanks around the parts of a tag have no meaning
			n := len(f.Go) + 3*len(f.Tag.Name) + len(f.Tag.Mods)
			pad := func(x string) string {
				n++
				return []string{"", "", " ", ""}[n%4] + x + []string{"", "  ", "", ""}[n%4]
			}
			s += " `gq:\"" + pad(f.Tag.Name)
			for _, m := range f.Tag.Mods {
				s += "," + pad(m)
			}
			s += "\"`"
		}
		xs = append(xs, s)
	}
	return strings.Join(xs, sep)
}

func (d *sDef) goDecl(x sDecl, b *bytes.Buffer) {
	n := d.goName(x.N)
	switch x.K {
	case "basic":
		fmt.Fprintf(b, "type %s %s\n", n, x.Under)
	case "iface":
		fmt.Fprintf(b, "type %s interface {\n", n)
		for _, m := range x.Ms {
			fmt.Fprintf(b, "\t%s%s\n", d.methName(m), d.goSig(m.T))
		}
		b.WriteString("}\n")
	case "struct":
		fs := d.goFields(x.Fs, "; ")
		if d.inArray(x.N) {
			fs = "_ byte `gq:\"-\"`; " + fs // see goType
		}
		fmt.Fprintf(b, "type %s struct {%s}\n", n, fs)
		for _, m := range x.Ms {
			if m.Prom {
				continue
			}
			rs := []string{}
			for _, o := range *m.T.Outs {
				rs = append(rs, "gfill["+d.goType(o)+"]()")
			}
			fmt.Fprintf(b, "func (%s) %s%s { return %s }\n", n, d.methName(m), d.goSig(m.T), strings.Join(rs, ", "))
		}
	}
}

// inArray tells if a type is the element of an array
func (d *sDef) inArray(n string) bool {
	var in func(t sType) bool
	fields := func(fs []sField) bool {
		for _, f := range fs {
			if in(f.T) {
				return true
			}
		}
		return false
	}
	in = func(t sType) bool {
		if t.K == "array" && t.E.K == "named" && t.E.N == n {
			return true
		}
		if t.E != nil && in(*t.E) || t.Fs != nil && fields(*t.Fs) {
			return true
		}
		if t.Params != nil {
			for _, p := range append(append([]sType{}, *t.Params...), *t.Outs...) {
				if in(p) {
					return true
				}
			}
		}
		return false
	}
	for _, x := range d.Decls {
		if fields(x.Fs) {
			return true
		}
		for _, m := range x.Ms {
			if in(m.T) {
				return true
			}
		}
	}
	return false
}

// registrations that are about the process
func (d *sDef) goInit(x sDecl, b *bytes.Buffer) {
	n := d.goName(x.N)
	if d.goName(x.Ql) != n && x.K == "struct" {
		fmt.Fprintf(b, "\tyarql.TypeRename(%s{}, %q)\n", n, d.goName(x.Ql))
	}
	for _, i := range x.Impl {
		fmt.Fprintf(b, "\tgimpl[%s, %s]()\n", d.goName(i), n)
	}
}

func (d *sDef) methName(m sMethod) string {
	if m.Res {
		return "Resolve" + d.goName(m.Go)
	}
	return d.goName(m.Go)
}

// goSource writes all definitions as one file of this package
func goSource(defs []*sDef) []byte {
	b := &bytes.Buffer{}
	b.WriteString("package main\n\nimport (\n\t\"mime/multipart\"\n\t\"time\"\n\t\"unsafe\"\n\n\tyarql \"github.com/mjarkk/yarql\"\n)\n\nvar _ = time.Now\nvar _ multipart.FileHeader\nvar _ unsafe.Pointer\n\n")
	ini := &bytes.Buffer{}
	lib := map[string]bool{}
	for _, d := range defs {
		own := []sDecl{}
		for _, x := range d.Decls {
			if !strings.HasPrefix(x.N, "%") {
				if lib[x.N] {
					continue
				}
				lib[x.N] = true
			}
			own = append(own, x)
		}
		ini.WriteString("\t{\n")
		for _, x := range own {
			if x.Loc {
				d.goDecl(x, ini)
			} else {
				d.goDecl(x, b)
				d.goInit(x, ini)
			}
		}
		for _, x := range own {
			if x.Loc {
				d.goInit(x, ini)
			}
		}
		fmt.Fprintf(ini, "\tgenSchemas[%d] = genSchema{gval[%s], gval[%s], func(s *yarql.Schema) []error {\n\t\treturn []error{\n", d.I, d.goType(d.Q), d.goType(d.Mu))
		for _, x := range d.Decls {
			if x.K == "basic" && len(x.Members) > 0 {
				fmt.Fprintf(ini, "\t\t\tgenum[%s](s", d.goName(x.N))
				for _, m := range x.Members {
					fmt.Fprintf(ini, ", %q", m)
				}
				ini.WriteString("),\n")
			}
		}
		for _, x := range d.Dirs {
			locs := []string{}
			for _, l := range x.Locs {
				locs = append(locs, map[string]string{"FIELD": "yarql.DirectiveLocationField", "FRAGMENT_SPREAD": "yarql.DirectiveLocationFragment", "INLINE_FRAGMENT": "yarql.DirectiveLocationFragmentInline"}[l])
			}
			no := false
			sig := d.goSig(sType{K: "func", Params: &x.Params, Outs: &[]sType{}, Variadic: &no})
			fmt.Fprintf(ini, "\t\t\ts.RegisterDirective(yarql.Directive{Name: %q, Where: []yarql.DirectiveLocation{%s}, Description: %q, Method: func%s yarql.DirectiveModifier { return yarql.DirectiveModifier{} }}),\n",
				x.N, strings.Join(locs, ", "), x.Desc, strings.TrimSuffix(sig, " ()"))
		}
		ini.WriteString("\t\t}\n\t}}\n\t}\n")
	}
	b.WriteString("\nfunc init() {\n")
	b.Write(ini.Bytes())
	b.WriteString("}\n")
	return b.Bytes()
}

// buildSchemas builds this program together with the Go types of the definitions
func (r *run) buildSchemas(defs []*sDef) error {
	src := filepath.Join(r.work, "zz_gen.go")
	if err := os.WriteFile(src, goSource(defs), 0o644); err != nil {
		return err
	}
	dir := filepath.Join(verifDir(), "harness")
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(dir, "zz_gen.go"): src}})
	of := filepath.Join(r.work, "overlay.json")
	if err := os.WriteFile(of, ov, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(r.work, "yv-gen")
	t0 := time.Now()
	cmd := exec.Command("go", "build", "-overlay", of, "-gcflags=-N -l", "-o", bin, ".")
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		if len(out) > 3000 {
			out = out[:3000]
		}
		return fmt.Errorf("definitions do not build: %v\n%s", err, out)
	}
	if os.Getenv("YV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "built %d definitions in %.1fs\n", len(defs), time.Since(t0).Seconds())
	}
	suiteBinary["schema"] = bin
	return nil
}

// ---- what the generated source uses ----

// types that refer to themselves without a named struct in between have no GraphQL type
type GLoopS []GLoopS
type GLoopP *GLoopP
type GLoopM []*GLoopN
type GLoopN []GLoopM
type GLoopA []struct{ X GLoopA }
type GLoopF func() struct{ X GLoopF }

type genSchema struct {
	q, mu func() interface{}
	reg   func(s *yarql.Schema) []error
}

var genSchemas = map[int]genSchema{}
var gimpls = map[reflect.Type][]reflect.Type{}
var genums = map[reflect.Type][]reflect.Value{}
var gpick int // which implementation interfaces get

func gimpl[I, T any]() {
	var i *I
	var t T
	yarql.Implements(i, t)
	it := reflect.TypeOf(i).Elem()
	gimpls[it] = append(gimpls[it], reflect.TypeOf(t))
}

func genum[T any](s *yarql.Schema, members ...string) error {
	var zero T
	t := reflect.TypeOf(zero)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	vals := []reflect.Value{}
	for i, x := range members {
		v := reflect.New(t).Elem()
		switch {
		case v.Kind() == reflect.String:
			v.SetString(fmt.Sprintf("v%d", i))
		case v.CanInt():
			v.SetInt(int64(i + 1))
		default:
			v.SetUint(uint64(i + 1))
		}
		m.SetMapIndex(reflect.ValueOf(x), v)
		vals = append(vals, v)
	}
	genums[t] = vals
	added, err := s.RegisterEnum(m.Interface())
	if err == nil && !added {
		return fmt.Errorf("enum not added")
	}
	return err
}

func gval[T any]() interface{} { return gfill[T]() }

func gfill[T any]() T {
	var v T
	budget := 4000
	gset(reflect.ValueOf(&v).Elem(), 7, &budget)
	return v
}

var timeType = reflect.TypeOf(time.Time{})
var fileType = reflect.TypeOf(multipart.FileHeader{})
var errorType = reflect.TypeOf((*error)(nil)).Elem()

func gset(v reflect.Value, depth int, budget *int) {
	*budget--
	t := v.Type()
	if vals := genums[t]; len(vals) > 0 {
		v.Set(vals[0])
		return
	}
	if t == timeType {
		v.Set(reflect.ValueOf(time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)))
		return
	}
	if t == fileType {
		return
	}
	deep := depth <= 0 || *budget <= 0
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("s")
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Ptr:
		if !deep && t.Elem() != fileType {
			p := reflect.New(t.Elem())
			gset(p.Elem(), depth-1, budget)
			v.Set(p)
		}
	case reflect.Slice:
		n := 1
		if deep {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			gset(s.Index(i), depth-1, budget)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			gset(v.Index(i), depth, budget)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				// every field gets its share
				share := *budget / v.NumField()
				gset(v.Field(i), depth, &share)
			}
		}
	case reflect.Interface:
		if impls := gimpls[t]; len(impls) > 0 && !deep {
			// every interface of a definition has its own bit
			n := t.Name()
			x := reflect.New(impls[(gpick>>(n[len(n)-1]&3))%len(impls)]).Elem()
			gset(x, depth-1, budget)
			v.Set(x)
		}
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
			outs := make([]reflect.Value, t.NumOut())
			for i := range outs {
				o := reflect.New(t.Out(i)).Elem()
				if t.Out(i) != errorType {
					b := 4000
					gset(o, 7, &b)
				}
				outs[i] = o
			}
			return outs
		}))
	}
}

// ---- observation ----

type sTy struct {
	K string `json:"k"`
	E *sTy   `json:"e,omitempty"`
	N string `json:"n,omitempty"`
}

type sArg struct {
	N  string `json:"n"`
	Ty *sTy   `json:"ty"`
}

type sObsField struct {
	N    string `json:"n"`
	Ty   *sTy   `json:"ty"`
	Args []sArg `json:"args"`
}

type sObsType struct {
	N      string      `json:"n"`
	K      string      `json:"k"`
	Fields []sObsField `json:"fields"`
	Inputs []sArg      `json:"inputs"`
	Enums  []string    `json:"enums"`
	Ifaces []string    `json:"ifaces"`
	Poss   []string    `json:"poss"`
}

type sObsDir struct {
	N    string   `json:"n"`
	Locs []string `json:"locs"`
	Desc string   `json:"desc"`
	Args []sArg   `json:"args"`
}

type sShape struct {
	K  string    `json:"k"`
	N  string    `json:"n,omitempty"`
	Xs *[]sShape `json:"xs,omitempty"`
}

type sObsVal struct {
	N  string `json:"n"`
	Sh sShape `json:"sh"`
}

type sObsExec struct {
	Ty      string    `json:"ty"`
	Reached string    `json:"reached"`
	Err     string    `json:"err"`
	Fs      []sObsVal `json:"fs"`
}

type sProbe struct {
	W  string `json:"w"`
	Ty string `json:"ty"`
	F  string `json:"f"`
	N  string `json:"n"`
	Ok bool   `json:"ok"`
}

type sList struct {
	Fs   []string `json:"fs"`
	Has  bool     `json:"has"`
	Only bool     `json:"only"`
}

type sHelper struct {
	N     string  `json:"n"`
	Has   bool    `json:"has"`
	Kind  string  `json:"kind"`
	Lists []sList `json:"lists"`
}

type sObs struct {
	Crash   string     `json:"crash"`
	Verdict string     `json:"verdict"`
	Err     string     `json:"err"`
	Types   []sObsType `json:"types"`
	Q       string     `json:"q"`
	Mu      string     `json:"mu"`
	Agree   string     `json:"agree"` // what is answered differently when asked in another way
	Dirs    []sObsDir  `json:"dirs"`
	Exec    []sObsExec `json:"exec"`
	Probes  []sProbe   `json:"probes"`
	Helpers []sHelper  `json:"helpers"`
}

// what introspection answers
type iType struct {
	Kind          string   `json:"kind"`
	Name          *string  `json:"name"`
	Fields        []iField `json:"fields"`
	Interfaces    []iType  `json:"interfaces"`
	PossibleTypes []iType  `json:"possibleTypes"`
	EnumValues    []iEnum  `json:"enumValues"`
	InputFields   []iInput `json:"inputFields"`
	OfType        *iType   `json:"ofType"`
}
type iField struct {
	Name         string   `json:"name"`
	Args         []iInput `json:"args"`
	Type         *iType   `json:"type"`
	IsDeprecated *bool    `json:"isDeprecated"`
}
type iEnum struct {
	Name string `json:"name"`
}
type iInput struct {
	Name         string  `json:"name"`
	Type         *iType  `json:"type"`
	DefaultValue *string `json:"defaultValue"`
}
type iDir struct {
	Name        string   `json:"name"`
	Description *string  `json:"description"`
	Locations   []string `json:"locations"`
	Args        []iInput `json:"args"`
}

const iRef = `kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}`

// iLook asks for what hangs on a type that is mentioned somewhere
const iLook = `kind name fields{name} inputFields{name} enumValues{name} possibleTypes{name} interfaces{name}`
const iLookRef = iLook + ` ofType{` + iLook + ` ofType{` + iLook + ` ofType{` + iLook + ` ofType{` + iLook + ` ofType{` + iLook + ` ofType{` + iLook + `}}}}}}`

const iFull = `kind name fields(includeDeprecated:true){name isDeprecated args{name defaultValue type{` + iRef + `}} type{` + iRef + `}} interfaces{kind name} possibleTypes{kind name} enumValues(includeDeprecated:true){name} inputFields{name defaultValue type{` + iRef + `}}`

type sRun struct {
	def   *sDef
	s     *yarql.Schema
	build func() (*yarql.Schema, error)
	obs   *sObs
	types map[string]*iType // as listed, by real name
	canon map[string]string // names of types without a Go name
	pre   string
}

func (x *sRun) ask(q string, vars string) (json.RawMessage, string) {
	errs := x.s.Resolve([]byte(q), yarql.ResolveOptions{NoMeta: true, Variables: vars})
	res := append([]byte{}, x.s.Result...)
	if len(errs) > 0 {
		return res, clean(errs[0].Error())
	}
	return res, ""
}

func (x *sRun) name(n string) string {
	if c, ok := x.canon[n]; ok {
		return c
	}
	return strings.Replace(n, x.pre, "%", 1)
}

func (x *sRun) ty(t *iType) *sTy {
	if t == nil {
		return &sTy{K: "none"}
	}
	switch t.Kind {
	case "NON_NULL":
		return &sTy{K: "nn", E: x.ty(t.OfType)}
	case "LIST":
		return &sTy{K: "list", E: x.ty(t.OfType)}
	}
	return &sTy{K: kindLetter(t.Kind), N: x.name(str(t.Name))}
}

func kindLetter(k string) string {
	switch k {
	case "OBJECT":
		return "O"
	case "INTERFACE":
		return "I"
	case "INPUT_OBJECT":
		return "N"
	case "ENUM":
		return "E"
	case "SCALAR":
		return "S"
	}
	return k
}

func str(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func baseType(t *iType) *iType {
	for t != nil && (t.Kind == "NON_NULL" || t.Kind == "LIST") {
		t = t.OfType
	}
	if t == nil {
		return &iType{}
	}
	return t
}

func nullable(t *iType) bool { return t == nil || t.Kind != "NON_NULL" }

func (x *sRun) args(as []iInput) []sArg {
	res := []sArg{}
	for _, a := range as {
		res = append(res, sArg{a.Name, x.ty(a.Type)})
	}
	return res
}

func runSchema(raw []byte) interface{} {
	def := &sDef{}
	if err := json.Unmarshal(raw, def); err != nil {
		panic("harness: " + err.Error())
	}
	g, ok := genSchemas[def.I]
	if !ok {
		panic("harness: definition is not built in")
	}
	obs := &sObs{Types: []sObsType{}, Dirs: []sObsDir{}, Exec: []sObsExec{}, Probes: []sProbe{}, Helpers: []sHelper{}}
	x := &sRun{def: def, obs: obs, types: map[string]*iType{}, canon: map[string]string{}, pre: def.prefix()}
	gpick = 0
	x.build = func() (*yarql.Schema, error) {
		s := yarql.NewSchema()
		for _, err := range g.reg(s) {
			if err != nil {
				return nil, err
			}
		}
		return s, s.Parse(g.q(), g.mu(), nil)
	}
	var err error
	if x.s, err = x.build(); err != nil {
		obs.Err = clean(err.Error())
		obs.Verdict = "refused"
		return obs
	}
	obs.Verdict = "accepted"
	x.introspect()
	x.helpers()
	x.execute()
	return obs
}

// introspect asks for the schema in several ways
func (x *sRun) introspect() {
	obs := x.obs
	byName := func(n string) string {
		v, _ := json.Marshal(map[string]string{"n": n})
		b, err := x.ask(`query($n:String!){__type(name:$n){`+iFull+`}}`, string(v))
		if err != "" {
			return "error: " + err
		}
		var r struct {
			Type json.RawMessage `json:"__type"`
		}
		if json.Unmarshal(b, &r) != nil {
			return "not JSON"
		}
		return string(r.Type)
	}
	// every other schema is asked by name before the list is asked for
	early := ""
	root := x.def.goName(x.def.Q.N)
	for _, d := range x.def.Decls {
		if d.N == x.def.Q.N {
			root = x.def.goName(d.Ql)
		}
	}
	if x.def.I%2 == 1 {
		early = byName(root)
	}
	b, err := x.ask(`{__schema{types{`+iFull+`} queryType{`+iFull+`} mutationType{`+iFull+`} subscriptionType{name} directives{name description locations args{name defaultValue type{`+iRef+`}}}}}`, "")
	if err != "" {
		obs.Agree = "introspection fails: " + err
		return
	}
	var r struct {
		Schema struct {
			Types            []json.RawMessage `json:"types"`
			QueryType        json.RawMessage   `json:"queryType"`
			MutationType     json.RawMessage   `json:"mutationType"`
			SubscriptionType json.RawMessage   `json:"subscriptionType"`
			Directives       []iDir            `json:"directives"`
		} `json:"__schema"`
	}
	if e := json.Unmarshal(b, &r); e != nil {
		obs.Agree = "introspection is not JSON: " + clean(e.Error())
		return
	}
	list := []*iType{}
	rawOf := map[string]string{}
	for _, rt := range r.Schema.Types {
		t := &iType{}
		if e := json.Unmarshal(rt, t); e != nil {
			obs.Agree = "introspection: " + clean(e.Error())
			return
		}
		list = append(list, t)
		x.types[str(t.Name)] = t
		rawOf[str(t.Name)] = string(rt)
	}
	differ := func(what string) {
		if obs.Agree == "" {
			obs.Agree = clean(x.name(what))
		}
	}
	// types without a Go name are named after the place where they are used
	anonymous := func(n string) bool { return strings.HasPrefix(n, "__Unknown") }
	var queue []string
	for _, t := range list {
		if !anonymous(str(t.Name)) {
			queue = append(queue, str(t.Name))
		}
	}
	place := func(t *iType, at string) {
		n := str(baseType(t).Name)
		if anonymous(n) && x.canon[n] == "" {
			x.canon[n] = at
			queue = append(queue, n)
		}
	}
	for _, d := range r.Schema.Directives {
		for _, a := range d.Args {
			place(a.Type, "@@"+d.Name+"("+a.Name+")")
		}
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		t := x.types[n]
		if t == nil {
			continue
		}
		for _, f := range t.Fields {
			place(f.Type, "@"+x.name(n)+"."+f.Name)
			for _, a := range f.Args {
				place(a.Type, "@"+x.name(n)+"."+f.Name+"("+a.Name+")")
			}
		}
		for _, f := range t.InputFields {
			place(f.Type, "@"+x.name(n)+"."+f.Name)
		}
	}
	for _, t := range list {
		o := sObsType{N: x.name(str(t.Name)), K: kindLetter(t.Kind), Fields: []sObsField{}, Inputs: x.args(t.InputFields), Enums: []string{}, Ifaces: []string{}, Poss: []string{}}
		for _, f := range t.Fields {
			o.Fields = append(o.Fields, sObsField{f.Name, x.ty(f.Type), x.args(f.Args)})
			if f.IsDeprecated == nil || *f.IsDeprecated {
				differ(str(t.Name) + "." + f.Name + " is deprecated")
			}
			for _, a := range f.Args {
				if a.DefaultValue != nil {
					differ(str(t.Name) + "." + f.Name + " has a default value")
				}
			}
		}
		for _, e := range t.EnumValues {
			o.Enums = append(o.Enums, e.Name)
		}
		for _, e := range t.Interfaces {
			o.Ifaces = append(o.Ifaces, x.name(str(e.Name)))
			if e.Kind != "INTERFACE" {
				differ(str(t.Name) + " has an interface of kind " + e.Kind)
			}
		}
		for _, e := range t.PossibleTypes {
			o.Poss = append(o.Poss, x.name(str(e.Name)))
			if e.Kind != "OBJECT" {
				differ(str(t.Name) + " has a possible type of kind " + e.Kind)
			}
		}
		obs.Types = append(obs.Types, o)
	}
	for _, d := range r.Schema.Directives {
		obs.Dirs = append(obs.Dirs, sObsDir{d.Name, nonNilStrings(d.Locations), str(d.Description), x.args(d.Args)})
	}
	sort.SliceStable(obs.Types, func(i, j int) bool { return obs.Types[i].N < obs.Types[j].N })
	// the list, by name, as query or mutation type, where it is mentioned, and again
	for n, rt := range rawOf {
		if byName(n) != rt {
			differ(n + " by name")
		}
	}
	for _, n := range []string{"", "zzz", root + "x", strings.ToLower(root), "[" + root + "]", root + "!"} {
		if _, ok := rawOf[n]; !ok && byName(n) != "null" {
			differ(n + " is not in the list")
		}
	}
	if early != "" && early != rawOf[root] {
		differ(root + " the first time")
	}
	for i, rt := range []json.RawMessage{r.Schema.QueryType, r.Schema.MutationType} {
		t := &iType{}
		_ = json.Unmarshal(rt, t)
		n := str(t.Name)
		if i == 0 {
			obs.Q = x.name(n)
		} else {
			obs.Mu = x.name(n)
		}
		if rawOf[n] != string(rt) {
			differ(n + " as query or mutation type")
		}
	}
	if string(r.Schema.SubscriptionType) != "null" {
		differ("there is a subscription type")
	}
	x.mentioned(differ)
	if b2, _ := x.ask(`{__schema{types{`+iFull+`}}}`, ""); true {
		var r2 struct {
			Schema struct {
				Types []json.RawMessage `json:"types"`
			} `json:"__schema"`
		}
		_ = json.Unmarshal(b2, &r2)
		if len(r2.Schema.Types) != len(list) {
			differ("the list is different the second time")
		}
		for _, rt := range r2.Schema.Types {
			t := &iType{}
			_ = json.Unmarshal(rt, t)
			if rawOf[str(t.Name)] != string(rt) {
				differ(str(t.Name) + " the second time")
			}
		}
	}
}

func nonNilStrings(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// mentioned compares what is said about a type where it is the type of something with its entry in the list
func (x *sRun) mentioned(differ func(string)) {
	b, err := x.ask(`{__schema{types{name fields{name type{`+iLookRef+`} args{type{`+iLookRef+`}}} inputFields{type{`+iLookRef+`}} possibleTypes{`+iLook+`} interfaces{`+iLook+`}}}}`, "")
	var r struct {
		Schema struct {
			Types []iType `json:"types"`
		} `json:"__schema"`
	}
	if err != "" || json.Unmarshal(b, &r) != nil {
		differ("introspection of mentioned types fails")
		return
	}
	sum := func(t *iType) string {
		s := t.Kind + " " + str(t.Name) + ":"
		for _, f := range t.Fields {
			s += f.Name + ","
		}
		s += ";"
		for _, f := range t.InputFields {
			s += f.Name + ","
		}
		s += ";"
		for _, f := range t.EnumValues {
			s += f.Name + ","
		}
		s += ";"
		for _, f := range t.PossibleTypes {
			s += str(f.Name) + ","
		}
		s += ";"
		for _, f := range t.Interfaces {
			s += str(f.Name) + ","
		}
		return s
	}
	same := func(t *iType, where string) {
		t = baseType(t)
		l := x.types[str(t.Name)]
		if l == nil {
			differ(str(t.Name) + " in " + where + " is not in the list")
		} else if sum(l) != sum(t) {
			differ(str(t.Name) + " in " + where)
		}
	}
	for i := range r.Schema.Types {
		t := &r.Schema.Types[i]
		n := str(t.Name)
		for _, f := range t.Fields {
			same(f.Type, n+"."+f.Name)
			for _, a := range f.Args {
				same(a.Type, n+"."+f.Name)
			}
		}
		for _, f := range t.InputFields {
			same(f.Type, n+"."+f.Name)
		}
		for j := range t.PossibleTypes {
			same(&t.PossibleTypes[j], n)
		}
		for j := range t.Interfaces {
			same(&t.Interfaces[j], n)
		}
	}
}

func (x *sRun) helpers() {
	names := []string{}
	for n := range x.types {
		names = append(names, n)
	}
	sort.Strings(names)
	unknown := []string{"", "zzz", "null", "q\"uote", "back\\slash", "é", "new\nline", "{}"}
	for i := 0; i < len(names); i += 5 {
		n := names[(i+x.def.I)%len(names)]
		unknown = append(unknown, n+"x", strings.ToLower(n), n[:len(n)-1], " "+n, strings.ToUpper(n), n+"!", "["+n+"]")
	}
	for _, n := range append(names, unknown...) {
		c := x.name(n)
		h := sHelper{N: c, Has: tester.HasType(x.s, n), Kind: kindLetter(tester.TypeKind(x.s, n)), Lists: []sList{}}
		fs := []string{}
		if t := x.types[n]; t != nil {
			for _, f := range t.Fields {
				fs = append(fs, f.Name)
			}
		}
		rev := []string{}
		for i := len(fs) - 1; i >= 0; i-- {
			rev = append(rev, fs[i])
		}
		lists := [][]string{fs, {}, append(append([]string{}, rev...), "zzz"), {"zzz"}, append([]string{""}, fs...)}
		if len(fs) > 0 {
			k := (x.def.I + len(n)) % len(fs)
			lists = append(lists, rev, []string{fs[k]}, append(append([]string{}, fs[:k]...), fs[k+1:]...), append(append([]string{}, fs...), fs[k]), []string{fs[k], fs[k]},
				append(append(append([]string{}, fs[:k]...), "zzz"), fs[k+1:]...), []string{strings.ToUpper(fs[k])}, []string{fs[k] + "x"})
		}
		for _, l := range lists {
			h.Lists = append(h.Lists, sList{l, tester.HasFields(x.s, n, l) == nil, tester.OnlyHasFields(x.s, n, l) == nil})
		}
		x.obs.Helpers = append(x.obs.Helpers, h)
	}
}

// ---- queries ----

// sPath leads to a type: the text around a selection of it
type sPath struct {
	op   string
	text []string // opening parts
	keys []string // keys to follow in the answer
	cond []bool
}

func (p *sPath) wrap(sel string) string {
	return p.op + "{" + strings.Join(p.text, "{") + open(len(p.text)) + sel + strings.Repeat("}", len(p.text)+1)
}

func open(n int) string {
	if n > 0 {
		return "{"
	}
	return ""
}

func (p *sPath) to(text, key string) *sPath {
	q := &sPath{op: p.op, text: append(append([]string{}, p.text...), text), keys: append([]string{}, p.keys...)}
	if key != "" {
		q.keys = append(q.keys, key)
	}
	return q
}

func composite(t *iType) bool {
	k := baseType(t).Kind
	return k == "OBJECT" || k == "INTERFACE"
}

func (x *sRun) paths() ([]string, map[string]*sPath) {
	res := map[string]*sPath{}
	order := []string{}
	add := func(n string, p *sPath) {
		if _, ok := res[n]; !ok && n != "" {
			res[n] = p
			order = append(order, n)
		}
	}
	real := func(c string) string {
		for n := range x.types {
			if x.name(n) == c {
				return n
			}
		}
		return ""
	}
	add(real(x.obs.Q), &sPath{op: "query"})
	add(real(x.obs.Mu), &sPath{op: "mutation"})
	for i := 0; i < len(order); i++ {
		t := x.types[order[i]]
		p := res[order[i]]
		if t == nil {
			continue
		}
		for _, f := range t.Fields {
			if composite(f.Type) {
				add(str(baseType(f.Type).Name), p.to(f.Name, f.Name))
			}
		}
		for _, pt := range t.PossibleTypes {
			add(str(pt.Name), p.to("... on "+str(pt.Name), ""))
		}
	}
	return order, res
}

func (x *sRun) shape(v interface{}) sShape {
	switch v := v.(type) {
	case nil:
		return sShape{K: "null"}
	case bool:
		return sShape{K: "bool"}
	case string:
		return sShape{K: "str"}
	case json.Number:
		if strings.ContainsAny(string(v), ".eE") {
			return sShape{K: "float"}
		}
		return sShape{K: "int"}
	case []interface{}:
		xs := []sShape{}
		for _, e := range v {
			xs = append(xs, x.shape(e))
		}
		return sShape{K: "list", Xs: &xs}
	case map[string]interface{}:
		n, _ := v["__typename"].(string)
		return sShape{K: "obj", N: x.name(n)}
	}
	return sShape{K: "?"}
}

// follow walks to the value at the end of a path
func follow(v interface{}, keys []string) map[string]interface{} {
	for {
		if l, ok := v.([]interface{}); ok {
			if len(l) == 0 {
				return nil
			}
			v = l[0]
			continue
		}
		o, ok := v.(map[string]interface{})
		if !ok || len(keys) == 0 {
			return o
		}
		v = o[keys[0]]
		keys = keys[1:]
	}
}

func (x *sRun) accepted(q, vars string) bool {
	_, err := x.ask(q, vars)
	return err == ""
}

func (x *sRun) execute() {
	order, paths := x.paths()
	names := x.candidates()
	for _, n := range order {
		t := x.types[n]
		if t == nil || strings.HasPrefix(n, "__") && x.canon[n] == "" {
			continue
		}
		p := paths[n]
		sel := "__typename "
		for _, f := range t.Fields {
			sel += f.Name
			if composite(f.Type) {
				sel += "{__typename}"
			}
			sel += " "
		}
		o := sObsExec{Ty: x.name(n), Reached: "null", Fs: []sObsVal{}}
		first := x.s
		for gpick = 0; o.Reached == "null" && o.Err == "" && gpick < 16; gpick++ {
			if gpick > 0 {
				// the same schema with other implementations in its values
				if s, err := x.build(); err == nil {
					x.s = s
				}
			}
			b, err := x.ask(p.wrap(sel), "")
			o.Err = err
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			var v interface{}
			if e := dec.Decode(&v); e != nil {
				o.Err = "not JSON"
				break
			}
			val := follow(v, p.keys)
			if val == nil {
				continue
			}
			tn, _ := val["__typename"].(string)
			if t.Kind == "OBJECT" && tn != n {
				// another implementation
				continue
			}
			o.Reached = "yes"
			for _, k := range jsonKeys(val) {
				if k != "__typename" {
					o.Fs = append(o.Fs, sObsVal{k, x.shape(val[k])})
				}
			}
			break // gpick stays what it is
		}
		x.obs.Exec = append(x.obs.Exec, o)

		if o.Reached != "yes" {
			gpick, x.s = 0, first
			continue
		}

		// names that are listed and names that are not
		listed := map[string]*iField{}
		for i := range t.Fields {
			listed[t.Fields[i].Name] = &t.Fields[i]
		}
		for _, c := range names {
			q := c
			if f := listed[c]; f != nil && composite(f.Type) || c == "__schema" || c == "__type" {
				q += "{__typename}"
			}
			x.obs.Probes = append(x.obs.Probes, sProbe{"field", o.Ty, "", c, x.accepted(p.wrap(q), "")})
		}
		for _, f := range t.Fields {
			x.probeArgs(o.Ty, p, f, names)
		}
		gpick, x.s = 0, first
	}
}

func jsonKeys(m map[string]interface{}) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// candidates are all names that could be thought of from the Go source
func (x *sRun) candidates() []string {
	set := map[string]bool{"zzz": true, "__schema": true, "__type": true, "__typename": true, "c": true, "C": true}
	add := func(n string) {
		ok := n != ""
		for i, c := range []byte(n) {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
				ok = false
			}
		}
		if ok && len(set) < 60 {
			set[n] = true
		}
	}
	var fields func(fs []sField)
	var typ func(t sType)
	typ = func(t sType) {
		if t.E != nil {
			typ(*t.E)
		}
		if t.Fs != nil {
			fields(*t.Fs)
		}
		if t.Params != nil {
			for _, p := range *t.Params {
				typ(p)
			}
			for _, p := range *t.Outs {
				typ(p)
			}
		}
	}
	fields = func(fs []sField) {
		for _, f := range fs {
			add(f.Go)
			add(f.Low)
			add(f.Tag.Name)
			typ(f.T)
		}
	}
	for _, d := range x.def.Decls {
		if !strings.HasPrefix(d.N, "%") {
			continue
		}
		fields(d.Fs)
		for _, m := range d.Ms {
			add(m.Go)
			add(m.Low)
			add("resolve" + m.Go)
			add("Resolve" + m.Go)
			typ(m.T)
		}
	}
	res := []string{}
	for n := range set {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

// fit writes a literal of a listed type, with all fields of input objects
func (x *sRun) fit(t *iType, depth int) (string, bool) {
	if t == nil {
		return "", false
	}
	switch t.Kind {
	case "NON_NULL":
		return x.fit(t.OfType, depth)
	case "LIST":
		in, ok := x.fit(t.OfType, depth)
		return "[" + in + "]", ok
	case "ENUM":
		e := x.types[str(t.Name)]
		if e == nil || len(e.EnumValues) == 0 {
			return "", false
		}
		return e.EnumValues[x.def.I%len(e.EnumValues)].Name, true
	case "SCALAR":
		switch str(t.Name) {
		case "Int":
			return "1", true
		case "Float":
			return "1.5", true
		case "String":
			return `"a"`, true
		case "Boolean":
			return "true", true
		case "ID":
			return `"7"`, true
		case "Time":
			return `"2021-01-02T03:04:05.000Z"`, true
		case "File":
			return "null", true
		}
		return "", false
	case "INPUT_OBJECT":
		l := x.types[str(t.Name)]
		if l == nil {
			return "", false
		}
		s := ""
		for _, f := range l.InputFields {
			if depth <= 0 {
				break
			}
			in, ok := x.fit(f.Type, depth-1)
			if ok {
				s += " " + f.Name + ":" + in
			} else {
				return "", false
			}
		}
		return "{" + s + " }", true
	}
	return "", false
}

func tyText(t *iType) string {
	switch t.Kind {
	case "NON_NULL":
		return tyText(t.OfType) + "!"
	case "LIST":
		return "[" + tyText(t.OfType) + "]"
	}
	return str(t.Name)
}

func (x *sRun) probeArgs(ty string, p *sPath, f iField, names []string) {
	sub := ""
	if composite(f.Type) {
		sub = "{__typename}"
	}
	try := func(args string) bool { return x.accepted(p.wrap(f.Name+"("+args+")"+sub), "") }
	listed := map[string]bool{}
	for _, a := range f.Args {
		listed[a.Name] = true
	}
	// without arguments there is little to be mixed up
	tries := names
	if len(f.Args) == 0 && len(tries) > 6 {
		tries = tries[x.def.I%3:][:3]
	}
	for _, n := range tries {
		x.obs.Probes = append(x.obs.Probes, sProbe{"arg", ty, f.Name, n, try(n + ":null")})
	}
	for _, a := range f.Args {
		if lit, ok := x.fit(a.Type, 3); ok {
			x.obs.Probes = append(x.obs.Probes, sProbe{"fit", ty, f.Name, a.Name, try(a.Name + ":" + lit)})
		}
		q := strings.Replace(p.wrap(f.Name+"("+a.Name+":$v)"+sub), "{", "($v:"+tyText(a.Type)+"){", 1)
		// what is asked for has to be declared, a value is only given where it may be null
		vars := `{"v":null}`
		if a.Type.Kind == "NON_NULL" {
			vars = ""
		}
		if vars != "" {
			x.obs.Probes = append(x.obs.Probes, sProbe{"var", ty, f.Name, a.Name, x.accepted(q, vars)})
		}
		x.probeInput(a.Type, names, map[string]bool{}, func(lit string) bool { return try(a.Name + ":" + lit) })
	}
}

// probeInput tries names as fields of the input objects below a type
func (x *sRun) probeInput(t *iType, names []string, seen map[string]bool, try func(lit string) bool) {
	switch t.Kind {
	case "NON_NULL":
		x.probeInput(t.OfType, names, seen, try)
	case "LIST":
		x.probeInput(t.OfType, names, seen, func(l string) bool { return try("[" + l + "]") })
	case "INPUT_OBJECT":
		n := str(t.Name)
		l := x.types[n]
		if l == nil || seen[n] || len(seen) > 3 {
			return
		}
		seen[n] = true
		for _, c := range names {
			x.obs.Probes = append(x.obs.Probes, sProbe{"infield", x.name(n), "", c, try("{" + c + ":null}")})
		}
		for _, f := range l.InputFields {
			f := f
			x.probeInput(f.Type, names, seen, func(lit string) bool { return try("{" + f.Name + ":" + lit + "}") })
		}
	}
}

func init() {
	suites["schema"] = runSchema
}

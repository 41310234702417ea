package main

import (
	"encoding/json"
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"

	"github.com/mjarkk/yarql"
	"verif/harness/api/pa"
	"verif/harness/api/pb"
)

// histories of the calls that set up a schema, see spec/Api.tla

type apiCall struct {
	K      string   `json:"k"`
	Shape  string   `json:"shape"`
	T      string   `json:"t"`
	Keys   []string `json:"keys"`
	Name   string   `json:"name"`
	Where  []string `json:"where"`
	Method string   `json:"method"`
	Q      string   `json:"q"`
	Mu     string   `json:"mu"`
	Skip   bool     `json:"skip"`
	I      string   `json:"i"`
	O      string   `json:"o"`
	N      string   `json:"n"`
	Force  bool     `json:"force"`
}

type apiUse struct {
	T      string     `json:"t"`
	Ty     string     `json:"ty"` // "" without introspection
	Arg    string     `json:"arg"`
	Values []string   `json:"values"`
	Lits   [][]string `json:"lits"` // member, outcome
	Vars   [][]string `json:"vars"`
	Raw    string     `json:"raw"`
}

type apiEnum struct {
	N  string   `json:"n"`
	Ks []string `json:"ks"`
}

type apiDir struct {
	N    string   `json:"n"`
	Locs []string `json:"locs"`
	Args []string `json:"args"`
}

type apiProbe struct {
	N string `json:"n"`
	L string `json:"l"`
	A string `json:"a"`
	R string `json:"r"`
}

type apiObs struct {
	Crash   string     `json:"crash"`
	Results []string   `json:"results"`
	Parsed  bool       `json:"parsed"`
	Intro   bool       `json:"intro"`
	Enums   []apiEnum  `json:"enums"`
	Dirs    []apiDir   `json:"dirs"`
	Uses    []apiUse   `json:"uses"`
	Probes  []apiProbe `json:"probes"`
	Bad     string     `json:"bad"`  // something that never may be
	Copy    string     `json:"copy"` // difference between the schema and its copy
}

var apiCodes = map[string]string{"empty": "", "nine": "9x", "under": "_x", "space": "a b", "dash": "a-b", "acute": "é", "line": "a\n", "quote": "a\""}

func apiName(n string) string {
	if s, ok := apiCodes[n]; ok {
		return s
	}
	return n
}

var apiTypes = map[string]reflect.Type{
	"A": reflect.TypeOf(pa.A("")), "A2": reflect.TypeOf(pb.A(0)), "B": reflect.TypeOf(pa.B(0)), "C": reflect.TypeOf(pa.C(0)), "Low": reflect.TypeOf(pa.Low("")), "Sc": reflect.TypeOf(pb.String("")),
	"Kind": reflect.TypeOf(pa.Kind(0)), "G": reflect.TypeOf(pa.G(0)), "Fl": reflect.TypeOf(pa.Fl(0)), "Bo": reflect.TypeOf(pa.Bo(false)), "St": reflect.TypeOf(pa.St{}),
	"Any": reflect.TypeOf((*interface{})(nil)).Elem(), "Str": reflect.TypeOf(""), "Int": reflect.TypeOf(0), "Ptr": reflect.TypeOf((*pa.A)(nil)),
}

func apiValue(t reflect.Type, key string, nr int) reflect.Value {
	n := map[string]int{"X1": 1, "Y": 2}[key]
	if n == 0 {
		n = 10 + nr
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint("v", n))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(n))
	}
	return v
}

func apiEnumArg(c apiCall) interface{} {
	t := apiTypes[c.T]
	switch c.Shape {
	case "nil":
		return nil
	case "nonmap":
		return apiValue(t, "X1", 0).Interface()
	case "nilmap":
		return reflect.Zero(reflect.MapOf(reflect.TypeOf(""), t)).Interface()
	}
	kt := reflect.TypeOf("")
	if c.Shape == "intkey" {
		kt = reflect.TypeOf(0)
	} else if c.Shape == "namedkey" {
		kt = reflect.TypeOf(pa.Key(""))
	}
	m := reflect.MakeMap(reflect.MapOf(kt, t))
	for i, k := range c.Keys {
		kv := reflect.New(kt).Elem()
		if c.Shape == "intkey" {
			kv.SetInt(int64(i))
		} else {
			kv.SetString(apiName(k))
		}
		m.SetMapIndex(kv, apiValue(t, k, i))
	}
	return m.Interface()
}

var apiLocs = map[string]yarql.DirectiveLocation{"F": yarql.DirectiveLocationField, "S": yarql.DirectiveLocationFragment, "I": yarql.DirectiveLocationFragmentInline, "odd": 99}
var apiLocNames = map[string]string{"FIELD": "F", "FRAGMENT_SPREAD": "S", "INLINE_FRAGMENT": "I"}

func apiDirArg(c apiCall) yarql.Directive {
	d := yarql.Directive{Name: apiName(c.Name), Method: pa.Methods[c.Method], Description: "d"}
	if len(c.Where) == 1 && c.Where[0] == "nil" {
		return d
	}
	d.Where = []yarql.DirectiveLocation{}
	for _, l := range c.Where {
		d.Where = append(d.Where, apiLocs[l])
	}
	return d
}

var apiIfs = map[string]interface{}{"nil": nil, "notptr": pa.ImplA{}, "ptrstruct": &pa.ImplA{}, "inline": (*interface{ ResolveX() string })(nil), "If": (*pa.If)(nil), "Other": (*pa.Other)(nil)}
var apiObjs = map[string]interface{}{"nil": nil, "ptr": &pa.ImplA{}, "inline": struct{ X string }{}, "int": 1, "St": pa.St{}, "ImplA": pa.ImplA{}}

// refusedByPanic: registrations at the start of the program are refused by stopping it with a message
func refusedByPanic(f func()) (res string) {
	defer func() {
		if e := recover(); e != nil {
			if _, isRuntime := e.(interface{ RuntimeError() }); isRuntime {
				res = fmt.Sprint("panic: ", e)
				return
			}
			res = "err"
		}
	}()
	f()
	return "added"
}

func (o *apiObs) call(s *yarql.Schema, c apiCall) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("panic: ", e)
		}
	}()
	switch c.K {
	case "enum":
		added, err := s.RegisterEnum(apiEnumArg(c))
		if err != nil {
			if added {
				o.Bad = "added and an error"
			}
			return "err"
		} else if added {
			return "added"
		}
		return "none"
	case "dir":
		if s.RegisterDirective(apiDirArg(c)) != nil {
			return "err"
		}
		return "added"
	case "parse":
		var opts *yarql.SchemaOptions
		if c.Skip {
			opts = &yarql.SchemaOptions{SkipGraphqlTypesInjection: true}
		} else if len(c.Q) == 4 {
			opts = &yarql.SchemaOptions{}
		}
		if s.Parse(pa.Roots[c.Q], pa.Roots[c.Mu], opts) != nil {
			return "err"
		}
		return "ok"
	case "impl":
		return refusedByPanic(func() { yarql.Implements(apiIfs[c.I], apiObjs[c.O]) })
	case "rename":
		var v interface{} = pa.St{}
		if c.T == "anon" {
			v = struct{}{}
		} else if c.T == "int" {
			v = pa.B(1)
		}
		return refusedByPanic(func() { yarql.TypeRename(v, apiName(c.N), c.Force) })
	case "rule":
		n := 2
		s.SetCacheRules(nil)
		s.SetCacheRules(&n)
		return "ok"
	case "ask":
		body, errs := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", nil },
			func() []byte { return []byte(`{"query":"{__typename}"}`) }, "application/json", nil)
		var x struct {
			Data   map[string]interface{}
			Errors []interface{}
		}
		if err := json.Unmarshal(body, &x); err != nil {
			o.Bad = "answer: " + clean(err.Error())
		} else if x.Data == nil || len(x.Errors) != len(errs) {
			o.Bad = "the form of the answer"
		}
		if len(errs) != 0 {
			return "err"
		}
		return "ok"
	}
	panic("harness: call " + c.K)
}

// apiAsk: the answer as JSON value and whether there are errors
func (o *apiObs) ask(s *yarql.Schema, q, vars string) (map[string]interface{}, bool) {
	errs := s.Resolve([]byte(q), yarql.ResolveOptions{Variables: vars, GetFormFile: func(string) (*multipart.FileHeader, error) { return nil, nil }})
	var x struct {
		Data   map[string]interface{}
		Errors []interface{}
	}
	if err := json.Unmarshal(s.Result, &x); err != nil {
		o.Bad = "answer: " + clean(err.Error())
	} else if len(x.Errors) != len(errs) || x.Data == nil {
		o.Bad = "the form of the answer"
	}
	return x.Data, len(errs) != 0
}

func apiTypeName(x interface{}) string {
	t, _ := x.(map[string]interface{})
	for t != nil && t["ofType"] != nil {
		t, _ = t["ofType"].(map[string]interface{})
	}
	return fmt.Sprint(t["kind"], " ", t["name"])
}

func apiStr(x interface{}) string {
	if x == nil {
		return "null"
	}
	return fmt.Sprint(x)
}

var apiUses = []string{"A", "A2", "B", "C", "Low"}
var apiMembers = []string{"X1", "Y", "Zed_9", "True"}

// see looks at what was set up
func (o *apiObs) see(s *yarql.Schema, use bool) {
	defer func() {
		if e := recover(); e != nil {
			o.Bad = clean(fmt.Sprint("panic: ", e))
		}
	}()
	o.Enums, o.Dirs, o.Uses, o.Probes = []apiEnum{}, []apiDir{}, []apiUse{}, []apiProbe{}
	d, failed := o.ask(s, `{__typename}`, "")
	if o.Parsed = !failed; failed {
		if len(d) != 0 {
			o.Bad = "data of a schema that was not parsed"
		}
		return
	}
	d, failed = o.ask(s, `{__schema{types{kind name enumValues(includeDeprecated:true){name}} directives{name locations args{name}}}}`, "")
	if o.Intro = !failed; !failed {
		sch := d["__schema"].(map[string]interface{})
		for _, x := range sch["types"].([]interface{}) {
			t := x.(map[string]interface{})
			if n := t["name"].(string); t["kind"] == "ENUM" && n != "__TypeKind" && n != "__DirectiveLocation" {
				e := apiEnum{n, []string{}}
				for _, v := range t["enumValues"].([]interface{}) {
					e.Ks = append(e.Ks, v.(map[string]interface{})["name"].(string))
				}
				o.Enums = append(o.Enums, e)
			}
		}
		for _, x := range sch["directives"].([]interface{}) {
			t := x.(map[string]interface{})
			e := apiDir{t["name"].(string), []string{}, []string{}}
			for _, v := range t["locations"].([]interface{}) {
				e.Locs = append(e.Locs, apiLocNames[v.(string)])
			}
			for _, v := range t["args"].([]interface{}) {
				e.Args = append(e.Args, v.(map[string]interface{})["name"].(string))
			}
			o.Dirs = append(o.Dirs, e)
		}
	}
	sort.Slice(o.Dirs, func(a, b int) bool { return fmt.Sprint(o.Dirs[a]) < fmt.Sprint(o.Dirs[b]) })
	if !use {
		return
	}
	types, args := map[string]string{}, map[string]string{}
	if o.Intro {
		d, failed = o.ask(s, `{__type(name:"QUse"){fields{name type{...t} args{name type{...t}}}}} fragment t on __Type{kind name ofType{kind name ofType{kind name}}}`, "")
		if failed {
			o.Bad = "introspection"
			return
		}
		for _, x := range d["__type"].(map[string]interface{})["fields"].([]interface{}) {
			f := x.(map[string]interface{})
			types[f["name"].(string)] = apiTypeName(f["type"])
			for _, a := range f["args"].([]interface{}) {
				args[f["name"].(string)] = apiTypeName(a.(map[string]interface{})["type"])
			}
		}
	}
	for _, t := range apiUses {
		// the second letter is upper case: the names stay as they are
		f1, f2, g := "V"+t+"1", "V"+t+"2", "G"+t
		u := apiUse{T: t, Ty: types[f1], Arg: args[g], Values: []string{}, Lits: [][]string{}, Vars: [][]string{}}
		if d, failed = o.ask(s, "{"+f1+" "+f2+"}", ""); failed {
			o.Bad = "values of " + t
			return
		}
		u.Values = []string{apiStr(d[f1]), apiStr(d[f2])}
		res := func(d map[string]interface{}, failed bool) string {
			if failed {
				return "error"
			}
			return apiStr(d[g])
		}
		name := apiTypes[t].Name()
		for _, k := range apiMembers {
			u.Lits = append(u.Lits, []string{k, res(o.ask(s, "{"+g+"(v:"+k+")}", ""))})
			u.Vars = append(u.Vars, []string{k, res(o.ask(s, "query($x:"+name+"!){"+g+"(v:$x)}", `{"x":"`+k+`"}`))})
		}
		raw, _ := json.Marshal(apiValue(apiTypes[t], "X1", 0).Interface())
		u.Raw = res(o.ask(s, "{"+g+"(v:"+string(raw)+")}", ""))
		o.Uses = append(o.Uses, u)
	}
	for _, n := range []string{"da", "db", "D9", "_x", "True", "true", "on"} {
		for l, q := range map[string]string{"F": "{VA1 f %s}", "S": "{VA1 ...x %s} fragment x on QUse{f}", "I": "{VA1 ...%s{f}}"} {
			for _, a := range []string{"", "true", "false"} {
				dir := "@" + n
				if a != "" {
					dir += "(on:" + a + ")"
				}
				d, failed := o.ask(s, fmt.Sprintf(q, dir), "")
				r := "skip"
				if failed {
					r = "error"
				} else if d["f"] != nil {
					r = "keep"
				}
				if _, ok := d["VA1"]; !ok {
					o.Bad = "a directive takes away the field next to it"
				}
				id := n
				if n == "_x" {
					id = "under"
				}
				o.Probes = append(o.Probes, apiProbe{id, l, a, r})
			}
		}
	}
	sort.Slice(o.Probes, func(a, b int) bool { return fmt.Sprint(o.Probes[a]) < fmt.Sprint(o.Probes[b]) })
}

func runAPICase(raw []byte) interface{} {
	var cs struct {
		Calls []apiCall `json:"calls"`
	}
	if err := json.Unmarshal(raw, &cs); err != nil {
		panic("harness: " + err.Error())
	}
	o := &apiObs{Results: []string{}}
	s := yarql.NewSchema()
	q := ""
	for _, c := range cs.Calls {
		r := o.call(s, c)
		if c.K == "parse" && r == "ok" {
			q = c.Q
		}
		o.Results = append(o.Results, clean(r))
	}
	o.see(s, q == "QUse")
	if o.Parsed {
		cp := &apiObs{Results: o.Results}
		cp.see(s.Copy(), q == "QUse")
		a, _ := json.Marshal(o)
		b, _ := json.Marshal(cp)
		if string(a) != string(b) {
			o.Copy = "a copy of the schema differs"
		}
	}
	return o
}

func init() { suites["api"] = runAPICase }

// apiBatch: histories of set up calls, validated for the given mask
func (r *run) apiBatch(mask []string) error {
	cases := []interface{}{}
	for _, g := range []struct {
		conf        string
		size, deep  int
		max, maxDep int
	}{{"enum", 1, 1, 1000, 1000}, {"dir", 1, 1, 1000, 1000}, {"parse", 1, 1, 600, 5000}, {"many", 2, 3, 400, 8000}, {"retry", 1, 1, 500, 5000}, {"late", 1, 1, 500, 500}, {"global", 1, 1, 500, 500}} {
		lines, err := r.specLines("ApiGen", g.conf, r.n(g.size, g.deep), r.n(g.max, g.maxDep))
		if err != nil {
			return err
		}
		for _, l := range lines {
			cases = append(cases, json.RawMessage(l))
		}
	}
	return r.validate("api", "ApiTrace", cases, mask)
}

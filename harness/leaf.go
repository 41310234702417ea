package main

// Leaf values (spec/Leaf.tla): a query struct with a field for every value, of any leaf type and position

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	y "github.com/mjarkk/yarql"
)

type (
	LMyStr   string
	LMyInt8  int8
	LMyUint  uint
	LMyInt64 int64
	LMyBool  bool
	LMyF32   float32
	LMyF64   float64
	LEStr    string
	LEInt8   int8
	LEInt    int
	LEUint8  uint8
	LEUint64 uint64
)

var leafTypes = map[string]reflect.Type{}

var leafEnums = []string{"LEStr", "LEInt8", "LEInt", "LEUint8", "LEUint64"}

func init() {
	for _, v := range []interface{}{"", int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), false, time.Time{},
		LMyStr(""), LMyInt8(0), LMyUint(0), LMyInt64(0), LMyBool(false), LMyF32(0), LMyF64(0), LEStr(""), LEInt8(0), LEInt(0), LEUint8(0), LEUint64(0)} {
		t := reflect.TypeOf(v)
		leafTypes[t.Name()] = t
	}
}

// LVal is a value: k and what the specification reads of it, and how it is made
type LVal struct {
	m    map[string]interface{}
	K    string
	Go   string // type
	Pos  string // where it stands
	Raw  uint64 // bits
	B    []int  // bytes
	ID   bool
	Days int
	Secs int
	Ns   int
	Zone int // seconds
}

func (v LVal) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": v.K, "go": v.Go, "pos": v.Pos, "id": v.ID}
	switch v.K {
	case "str":
		m["b"] = v.B
	case "int", "idint":
		m["signed"], m["bits"] = v.signed(), bitsOf(v.Raw, v.width())
	case "float":
		m["w"], m["bits"] = v.width(), bitsOf(v.Raw, v.width())
	case "bool":
		m["b"] = v.Raw == 1
	case "time":
		m["days"], m["secs"], m["ns"], m["zone"] = v.Days, v.Secs, v.Ns, v.Zone
	case "enum":
		m["names"] = v.m["names"]
		if v.B != nil {
			m["b"] = v.B
		} else {
			m["bits"] = bitsOf(v.Raw, 64)
		}
	}
	return json.Marshal(m)
}

func (v *LVal) UnmarshalJSON(b []byte) error {
	var x struct {
		K, Go, Pos           string
		Bits                 []int
		B                    json.RawMessage
		ID                   bool
		Days, Secs, Ns, Zone int
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*v = LVal{K: x.K, Go: x.Go, Pos: x.Pos, ID: x.ID, Days: x.Days, Secs: x.Secs, Ns: x.Ns, Zone: x.Zone}
	for _, b := range x.Bits {
		v.Raw = v.Raw<<1 | uint64(b)
	}
	switch {
	case string(x.B) == "true":
		v.Raw = 1
	case len(x.B) > 0 && x.B[0] == '[':
		return json.Unmarshal(x.B, &v.B)
	}
	return nil
}

func bitsOf(u uint64, w int) []int {
	res := make([]int, w)
	for i := range res {
		res[i] = int(u >> uint(w-1-i) & 1)
	}
	return res
}

func (v LVal) signed() bool {
	switch leafTypes[v.Go].Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return true
	}
	return false
}
func (v LVal) width() int { return leafTypes[v.Go].Bits() }

func bytesOf(b []int) string {
	res := make([]byte, len(b))
	for i, x := range b {
		res[i] = byte(x)
	}
	return string(res)
}

// set writes the value into x, of its type
func (v LVal) set(x reflect.Value) {
	switch x.Kind() {
	case reflect.String:
		x.SetString(bytesOf(v.B))
	case reflect.Bool:
		x.SetBool(v.Raw == 1)
	case reflect.Float32:
		x.Set(reflect.ValueOf(math.Float32frombits(uint32(v.Raw))).Convert(x.Type()))
	case reflect.Float64:
		x.SetFloat(math.Float64frombits(v.Raw))
	case reflect.Struct:
		t := time.Unix(int64(v.Days)*86400+int64(v.Secs), int64(v.Ns)).In(time.FixedZone("z", v.Zone))
		x.Set(reflect.ValueOf(t))
	default:
		if v.signed() {
			w := uint(64 - v.width())
			x.SetInt(int64(v.Raw<<w) >> w)
		} else {
			x.SetUint(v.Raw)
		}
	}
}

type LeafCase struct {
	Enums map[string][]LEntry `json:"enums"`
	Vals  []LVal              `json:"vals"`
}

type LEntry struct {
	N string `json:"n"`
	V LVal   `json:"v"`
}

type LeafObs struct {
	Texts [][]int `json:"texts"`
	Env   string  `json:"env"`
	Crash string  `json:"crash"`
}

type LeafM struct{}

func runLeaf(c *LeafCase) (o LeafObs) {
	s := y.NewSchema()
	for n, es := range c.Enums {
		t := leafTypes[n]
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		for _, e := range es {
			x := reflect.New(t).Elem()
			e.V.set(x)
			m.SetMapIndex(reflect.ValueOf(e.N), x)
		}
		if _, err := s.RegisterEnum(m.Interface()); err != nil {
			panic("harness: " + err.Error())
		}
	}
	fields := []reflect.StructField{}
	idType := reflect.TypeOf(y.AttrIsID(0))
	funcs := map[int]reflect.Value{}
	for i, v := range c.Vals {
		v := v
		t := leafTypes[v.Go]
		tag := fmt.Sprintf(`gq:"v%d`, i)
		if v.ID && v.Pos != "func" && v.Pos != "ptrfunc" {
			tag += ",id"
		}
		ft := t
		switch v.Pos {
		case "ptr":
			ft = reflect.PtrTo(t)
		case "ptr2", "ptr2inner":
			ft = reflect.PtrTo(reflect.PtrTo(t))
		case "slice":
			ft = reflect.SliceOf(t)
		case "array":
			ft = reflect.ArrayOf(2, t)
		case "sliceptr":
			ft = reflect.SliceOf(reflect.PtrTo(t))
		case "slice2":
			ft = reflect.SliceOf(reflect.SliceOf(t))
		case "func", "ptrfunc":
			outT := t
			if v.Pos == "ptrfunc" {
				outT = reflect.PtrTo(t)
			}
			outs := []reflect.Type{outT}
			if v.ID {
				outs = append(outs, idType)
			}
			ft = reflect.FuncOf(nil, outs, false)
			funcs[i] = reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value {
				x := reflect.New(t).Elem()
				if v.K != "null" {
					v.set(x)
				}
				res := x
				if v.Pos == "ptrfunc" {
					res = reflect.Zero(outT)
					if v.K != "null" {
						res = x.Addr()
					}
				}
				if v.ID {
					return []reflect.Value{res, reflect.Zero(idType)}
				}
				return []reflect.Value{res}
			})
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: ft, Tag: reflect.StructTag(tag + `"`)})
	}
	q := reflect.New(reflect.StructOf(fields)).Elem()
	for i, v := range c.Vals {
		f := q.Field(i)
		if v.K == "null" {
			switch v.Pos {
			case "ptr2inner":
				f.Set(reflect.New(f.Type().Elem()))
			case "sliceptr":
				f.Set(reflect.MakeSlice(f.Type(), 1, 1))
			case "ptrfunc":
				f.Set(funcs[i])
			}
			continue
		}
		x := reflect.New(leafTypes[v.Go]).Elem()
		v.set(x)
		switch v.Pos {
		case "ptr":
			f.Set(x.Addr())
		case "ptr2":
			p := reflect.New(f.Type().Elem())
			p.Elem().Set(x.Addr())
			f.Set(p)
		case "slice":
			f.Set(reflect.Append(f, x))
		case "slice2":
			f.Set(reflect.Append(f, reflect.Append(reflect.Zero(f.Type().Elem()), x)))
		case "array":
			f.Index(1).Set(x)
		case "sliceptr":
			f.Set(reflect.Append(f, x.Addr()))
		case "func", "ptrfunc":
			f.Set(funcs[i])
		default:
			f.Set(x)
		}
	}
	if err := s.Parse(q.Interface(), LeafM{}, nil); err != nil {
		panic("harness: " + err.Error())
	}
	var b strings.Builder
	b.WriteString("{")
	for i := range c.Vals {
		fmt.Fprintf(&b, "v%d ", i)
	}
	b.WriteString("}")
	errs := s.Resolve([]byte(b.String()), y.ResolveOptions{NoMeta: true})
	if len(errs) > 0 {
		o.Env = "unexpected error: " + clean(errs[0].Error())
		return o
	}
	var data map[string]json.RawMessage
	if err := json.Unmarshal(s.Result, &data); err != nil {
		o.Env = "not JSON: " + clean(err.Error())
		return o
	}
	for i, v := range c.Vals {
		raw, ok := data[fmt.Sprintf("v%d", i)]
		if !ok {
			o.Env = "a field is missing"
			return o
		}
		depth, at := 0, 0
		switch {
		case v.K == "null" && v.Pos != "sliceptr":
		case v.Pos == "slice", v.Pos == "sliceptr":
			depth = 1
		case v.Pos == "slice2":
			depth = 2
		case v.Pos == "array":
			depth, at = 1, 1
		}
		for ; depth > 0; depth-- {
			var xs []json.RawMessage
			if err := json.Unmarshal(raw, &xs); err != nil || len(xs) != at+1 {
				o.Env = "another list"
				return o
			}
			raw = xs[at]
		}
		t := make([]int, len(raw))
		for j, x := range raw {
			t[j] = int(x)
		}
		o.Texts = append(o.Texts, t)
	}
	return o
}

func clean(s string) string { return strings.ReplaceAll(s, "|", ";") }

// ---- generation ----

var leafInts = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "LMyInt8", "LMyUint", "LMyInt64"}

func byteInts(s string) []int {
	res := make([]int, len(s))
	for i := range res {
		res[i] = int(s[i])
	}
	return res
}

func genLeafString(r *rand.Rand) []int {
	var b []byte
	n := r.Intn(20)
	if r.Intn(20) == 0 {
		n = 100 + r.Intn(150)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0:
			b = append(b, byte(r.Intn(256)))
		case 1:
			b = append(b, string(rune(r.Intn(0x110000)))...)
		case 2:
			b = append(b, string(rune(0x2000+r.Intn(0x40)))...)
		case 3:
			b = append(b, []string{"\"", "\\", "/", "\n", "\u2028", "\u2029", "\ufffd", "\x7f", "\x00", "<", "\u0080", "~", "}", "\ud7ff", "\ue000", "\U00010000", "\U0010ffff"}[r.Intn(17)]...)
		case 4:
			b = append(b, byte(r.Intn(32)))
		case 5: // a character that is cut off
			c := string(rune(0x80 + r.Intn(0x10ff80)))
			b = append(b, c[:1+r.Intn(len(c))]...)
		default:
			b = append(b, byte(32+r.Intn(95)))
		}
	}
	return byteInts(string(b))
}

func genLeafBits(r *rand.Rand, w int) uint64 {
	u := r.Uint64()
	one := uint64(1)
	switch r.Intn(5) {
	case 0:
		u = one << uint(r.Intn(w))
	case 1:
		u = one<<uint(r.Intn(w)) - 1
	case 2:
		u = -(one << uint(r.Intn(w)))
	case 3: // powers of ten and neighbours
		u = 1
		for n := r.Intn(20); n > 0; n-- {
			u *= 10
		}
		u += uint64(r.Intn(3)) - 1
		if r.Intn(2) == 0 {
			u = -u
		}
	}
	if w < 64 {
		u &= one<<uint(w) - 1
	}
	return u
}

func genLeafFloat(r *rand.Rand, w int) uint64 {
	for {
		var u uint64
		var f float64
		mb := uint(52)
		if w == 32 {
			mb = 23
		}
		switch r.Intn(7) {
		case 0:
			u = r.Uint64()
		case 1: // decimal numbers
			fmt.Sscan(fmt.Sprintf("%d.%de%d", r.Intn(1000), r.Intn(100000), r.Intn(40)-20), &f)
		case 2: // powers of two and neighbours
			f = math.Ldexp(1, r.Intn(300)-150)
		case 3:
			f = math.Pow(10, float64(r.Intn(60)-30))
		case 4:
			u = uint64(r.Intn(3)) // the smallest
		case 5:
			f = float64(r.Int63n(1 << uint(r.Intn(62)+1)))
		case 6: // near where the format changes
			f = []float64{1e21, 1e-6, 1e20, 1e-7, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, 0x1p-126, 0x1p-1022, 1 << 24, 1 << 53, 0.1, 1.0 / 3}[r.Intn(13)]
		}
		if f != 0 {
			if w == 32 {
				u = uint64(math.Float32bits(float32(f)))
			} else {
				u = math.Float64bits(f)
			}
			u += uint64(r.Intn(5)) - 2
		}
		if r.Intn(3) == 0 {
			u ^= 1 << uint(w-1)
		}
		if w == 32 {
			u &= 1<<32 - 1
		}
		// finite
		eb := uint(w) - 1 - mb
		if u>>mb&(1<<eb-1) == 1<<eb-1 {
			continue
		}
		return u
	}
}

func leafPos(r *rand.Rand) string {
	return []string{"field", "field", "field", "ptr", "ptr2", "slice", "array", "sliceptr", "slice2", "func", "ptrfunc"}[r.Intn(11)]
}

func leafInList(pos string) bool {
	return pos == "slice" || pos == "array" || pos == "sliceptr" || pos == "slice2"
}

func genLeaf(r *rand.Rand) *LeafCase {
	c := &LeafCase{Enums: map[string][]LEntry{}}
	for _, n := range leafEnums {
		es := []LEntry{}
		for i := 0; i < 1+r.Intn(4); i++ {
			v := LVal{K: "int", Go: n, Raw: genLeafBits(r, 64)}
			if leafTypes[n].Kind() == reflect.String {
				v = LVal{K: "str", Go: n, B: genLeafString(r)}
			} else {
				v.Raw = v.trunc(v.Raw)
			}
			name := fmt.Sprintf("%c%d", 'A'+r.Intn(26), i)
			if r.Intn(3) == 0 {
				name = fmt.Sprintf("%c_%cx%d", 'a'+r.Intn(26), 'A'+r.Intn(26), i)
			}
			es = append(es, LEntry{name, v})
		}
		c.Enums[n] = es
	}
	for i := 0; i < 20; i++ {
		v := LVal{Pos: leafPos(r)}
		switch r.Intn(12) {
		case 0, 1, 2:
			v.K, v.Go, v.B = "str", []string{"string", "string", "LMyStr"}[r.Intn(3)], genLeafString(r)
			v.ID = r.Intn(4) == 0 && !leafInList(v.Pos)
		case 3, 4:
			v.K, v.Go = "int", leafInts[r.Intn(len(leafInts))]
			v.Raw = genLeafBits(r, v.width())
			if r.Intn(3) == 0 && !leafInList(v.Pos) {
				v.ID, v.K = true, "idint"
			}
		case 5, 6, 7:
			v.K, v.Go = "float", []string{"float32", "float64", "float64", "LMyF32", "LMyF64"}[r.Intn(5)]
			v.Raw = genLeafFloat(r, v.width())
		case 8:
			v.K, v.Go, v.Raw = "bool", []string{"bool", "LMyBool"}[r.Intn(2)], uint64(r.Intn(2))
		case 9:
			v.K, v.Go = "time", "Time"
			v.Days = []int{r.Intn(40000), r.Intn(3652059) - 719162, -r.Intn(30000), []int{0, -1, 11016, 11017, 18321, 19782, 2932895, -719162}[r.Intn(8)]}[r.Intn(4)]
			v.Secs = []int{r.Intn(86400), 0, 86399, r.Intn(3600)}[r.Intn(4)]
			v.Ns = []int{r.Intn(1000000000), 0, 999999999, 1000000 * r.Intn(1000), 999999, 1000000}[r.Intn(6)]
			v.Zone = []int{0, 3600 * (r.Intn(27) - 12), r.Intn(100000) - 43200}[r.Intn(3)]
		case 10:
			n := leafEnums[r.Intn(len(leafEnums))]
			v.K, v.Go = "enum", n
			if r.Intn(4) == 0 {
				v.Raw = v.trunc(genLeafBits(r, 64))
				if leafTypes[n].Kind() == reflect.String {
					v.B = genLeafString(r)
				}
			} else {
				e := c.Enums[n][r.Intn(len(c.Enums[n]))].V
				v.Raw, v.B = e.Raw, e.B
			}
			names := [][]int{}
			for _, e := range c.Enums[n] {
				if bytesOf(e.V.B) == bytesOf(v.B) && e.V.Raw == v.Raw {
					names = append(names, byteInts(e.N))
				}
			}
			v.m = map[string]interface{}{"names": names}
		case 11:
			v.K = "null"
			v.Pos = []string{"ptr", "ptr2", "ptr2inner", "sliceptr", "func", "ptrfunc", "ptr"}[r.Intn(7)]
			v.Go = []string{"string", "int", "float64", "Time", "LEStr", "bool", "LEInt"}[r.Intn(7)]
			if v.Go == "string" || v.Go == "int" {
				v.ID = r.Intn(2) == 0 && v.Pos != "sliceptr"
			}
		}
		c.Vals = append(c.Vals, v)
	}
	return c
}

// trunc: the bits a value of this type has
func (v LVal) trunc(u uint64) uint64 {
	if leafTypes[v.Go].Kind() == reflect.String {
		return 0
	}
	if w := v.width(); w < 64 {
		u &= 1<<uint(w) - 1
	}
	return u
}

func init() {
	suites["leaf"] = func(raw []byte) interface{} {
		var c LeafCase
		if err := json.Unmarshal(raw, &c); err != nil {
			panic("harness: " + err.Error())
		}
		return runLeaf(&c)
	}
	checks["C15"] = checkDef{id: "C15", level: "model_checking",
		rule: "all texts up to the length given in exhaustive_parts over the bytes at which UTF-8 and JSON rules change, every single byte, and seeded random values of all leaf types at all positions (20 or 40 values a case); a case is distinct when a value, type or position differs",
		run: func(r *run) error {
			strs := [][]int{}
			for _, g := range []struct {
				conf     string
				size, mx int
			}{{"edges", r.n(3, 3), 1000000}, {"multi", r.n(4, 5), 300000}} {
				lines, err := r.specLines("LeafGen", g.conf, g.size, g.mx)
				if err != nil {
					return err
				}
				for _, l := range lines {
					var b []int
					if err := json.Unmarshal([]byte(l), &b); err != nil {
						return err
					}
					strs = append(strs, b)
				}
			}
			for i := 0; i < 256; i++ {
				strs = append(strs, []int{i}, []int{i, i}, []int{97, i, 98})
			}
			cs := []interface{}{}
			for len(strs) > 0 {
				n := 40
				if n > len(strs) {
					n = len(strs)
				}
				c := &LeafCase{Enums: map[string][]LEntry{}}
				for _, b := range strs[:n] {
					c.Vals = append(c.Vals, LVal{K: "str", Go: "string", Pos: "field", B: b})
				}
				strs = strs[n:]
				cs = append(cs, c)
			}
			for i, n := 0, r.n(1500, 60000); i < n; i++ {
				cs = append(cs, genLeaf(r.rng))
			}
			vals := 0
			for _, c := range cs {
				vals += len(c.(*LeafCase).Vals)
			}
			r.notes["values"] = vals
			return r.validate("leaf", "LeafTrace", cs, []string{})
		}}
}

package main

import (
	"fmt"
	"math/rand"
)

// random definitions: larger than what the specification enumerates, most of them can be represented

type sGen struct {
	r      *rand.Rand
	decls  []sDecl
	nObj   int
	ifs    []string
	enums  []string
	basics []string
	ins    []string
	bad    int // things still to be put in that cannot be represented
}

type sName struct {
	go_, low string
	up2      bool
}

var sNames = []sName{{"Aa", "aa", false}, {"Bb", "bb", false}, {"C", "c", false}, {"URL", "uRL", true}, {"ID", "iD", true}, {"Xy_z", "xy_z", false}, {"Dd9", "dd9", false},
	{"Ef", "ef", false}, {"FGh", "fGh", true}, {"N1", "n1", true}, {"X9y", "x9y", true}, {"B_c", "b_c", true}, {"V_", "v_", true}, {"Long_nameWith9", "long_nameWith9", false}, {"Type", "type", false}, {"Query", "query", false}, {"On", "on", false}, {"True", "true", false}, {"Null", "null", false}, {"Fragment", "fragment", false}, {"ResolveX", "resolveX", false}}

func ptrTo[T any](x T) *T { return &x }

func sBasic(b string) sType         { return sType{K: "basic", B: b} }
func sNamed(n string) sType         { return sType{K: "named", N: n} }
func sWrap(k string, e sType) sType { return sType{K: k, E: &e} }
func sFunc(ps, os []sType) sType {
	if ps == nil {
		ps = []sType{}
	}
	return sType{K: "func", Params: &ps, Outs: &os, Variadic: ptrTo(false)}
}
func sNoTag() sTag { return sTag{Chars: []int{}, Mods: []string{}} }
func (n sName) field(t sType) sField {
	return sField{Go: n.go_, Low: n.low, Up2: n.up2, Good: true, Exp: true, Tag: sNoTag(), T: t}
}

func (g *sGen) names() func() sName {
	perm := g.r.Perm(len(sNames))
	i := 0
	return func() sName {
		i++
		return sNames[perm[(i-1)%len(perm)]]
	}
}

func (g *sGen) one(p float64) bool { return g.r.Float64() < p }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

var sBasics = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
var sNotOut = []string{"loops", "loopp", "loopm", "loopa", "loopf", "map", "chan", "complex", "uintptr", "unsafe", "any", "file"}

// byValue: objects that can stand here without a pointer
func (g *sGen) out(from int, depth int, anon bool) sType {
	if g.bad > 0 && g.one(0.1) {
		g.bad--
		if g.one(0.2) {
			return sNamed("GN")
		}
		return sType{K: pick(g.r, sNotOut)}
	}
	if depth > 0 && g.one(0.35) {
		k := pick(g.r, []string{"ptr", "slice", "slice", "array"})
		f := from
		if k == "ptr" || k == "slice" {
			f = 0
		}
		return sWrap(k, g.out(f, depth-1, anon))
	}
	switch g.r.Intn(9) {
	case 0, 1:
		return sBasic(pick(g.r, sBasics))
	case 2, 3, 4:
		if from < g.nObj {
			return sNamed(fmt.Sprintf("%%O%d", from+g.r.Intn(g.nObj-from)))
		}
	case 5:
		if len(g.ifs) > 0 {
			return sNamed(pick(g.r, g.ifs))
		}
	case 6:
		if len(g.enums) > 0 {
			return sNamed(pick(g.r, g.enums))
		}
		if len(g.basics) > 0 {
			return sNamed(pick(g.r, g.basics))
		}
	case 7:
		return sType{K: "time"}
	case 8:
		if anon && depth > 0 {
			nm := g.names()
			fs := []sField{}
			for i := g.r.Intn(3); i >= 0; i-- {
				fs = append(fs, nm().field(g.out(from, depth-1, true)))
			}
			return sType{K: "anon", Fs: &fs}
		}
	}
	return sBasic(pick(g.r, sBasics))
}

func (g *sGen) in(from int, depth int, anon bool) sType {
	if g.bad > 0 && g.one(0.1) {
		g.bad--
		return sType{K: pick(g.r, sNotOut)}
	}
	if depth > 0 && g.one(0.35) {
		return sWrap(pick(g.r, []string{"ptr", "slice"}), g.in(0, depth-1, anon))
	}
	switch g.r.Intn(8) {
	case 0, 1, 2:
		if from < len(g.ins) {
			return sNamed(g.ins[from+g.r.Intn(len(g.ins)-from)])
		}
	case 3:
		if len(g.enums) > 0 {
			return sNamed(pick(g.r, g.enums))
		}
	case 4:
		if len(g.basics) > 0 {
			return sNamed(pick(g.r, g.basics))
		}
	case 5:
		if g.one(0.5) {
			return sWrap("ptr", sType{K: "file"})
		}
		return sType{K: "time"}
	case 6:
		if anon && depth > 0 {
			fs := g.inFields(from, depth-1, 2)
			return sType{K: "anon", Fs: &fs}
		}
	}
	return sBasic(pick(g.r, sBasics))
}

// canID: may the type have an ID tag
func canID(t sType) bool {
	for t.K == "ptr" {
		t = *t.E
	}
	return t.K == "basic" && t.B != "bool" && t.B != "float32" && t.B != "float64"
}

var sTagNames = []string{"aA", "bB", "C", "Ef", "renamed", "Upper", "with_9", "q", "input", "typeX", "onX", "zZ"}

// tag gives a field a tag; used: names given already
func (g *sGen) tag(f *sField, used map[string]bool) {
	if !g.one(0.3) {
		return
	}
	t := sTag{Has: true, Chars: []int{}, Mods: []string{}}
	switch {
	case g.bad > 0 && g.one(0.3):
		g.bad--
		switch g.r.Intn(3) {
		case 0:
			t.Name = pick(g.r, []string{"9x", "_x", "a-b", "a b", "a.b", "é"})
		case 1:
			t.Mods = []string{"other"}
		default:
			t.Mods = []string{"id"}
			if canID(f.T) {
				f.T = sBasic("bool")
			}
		}
	case g.one(0.2):
		t.Name = "-"
	default:
		if n := pick(g.r, sTagNames); !used[n] && g.one(0.7) {
			used[n] = true
			t.Name = n
		}
		if canID(f.T) && g.one(0.4) {
			t.Mods = []string{pick(g.r, []string{"id", "ID", "Id"})}
		}
	}
	if t.Name == "" && len(t.Mods) == 0 {
		return
	}
	for _, c := range []byte(t.Name) {
		t.Chars = append(t.Chars, int(c))
	}
	f.Tag = t
}

func (g *sGen) inFields(from, depth, max int) []sField {
	nm := g.names()
	used := map[string]bool{}
	fs := []sField{}
	for i := g.r.Intn(max + 1); i > 0; i-- {
		f := nm().field(g.in(from, depth, true))
		if g.one(0.1) {
			// not visible
			f.Go, f.Low, f.Exp = "hidden"+f.Go, "hidden"+f.Go, false
			f.T = pick(g.r, []sType{sBasic("int"), {K: "map"}, {K: "chan"}, f.T})
		}
		g.tag(&f, used)
		fs = append(fs, f)
	}
	return fs
}

// params of a function: structs and the context, no argument twice
func (g *sGen) params(anon bool) []sType {
	ps := []sType{}
	if g.one(0.3) {
		ps = append(ps, sWrap("ptr", sType{K: "ctx"}))
	}
	if g.one(0.6) {
		if anon && len(g.ins) > 0 && g.one(0.25) {
			ps = append(ps, sNamed(pick(g.r, g.ins)))
		} else {
			nm := g.names()
			used := map[string]bool{}
			for k := g.r.Intn(2); k >= 0; k-- {
				fs := []sField{}
				for i := g.r.Intn(4); i > 0; i-- {
					f := nm().field(g.in(0, 2, anon))
					g.tag(&f, used)
					fs = append(fs, f)
				}
				ps = append(ps, sType{K: "anon", Fs: &fs})
				if g.one(0.3) {
					ps = append(ps, sWrap("ptr", sType{K: "ctx"}))
				}
			}
		}
	}
	if g.bad > 0 && g.one(0.1) {
		g.bad--
		ps = append(ps, pick(g.r, []sType{sBasic("int"), {K: "ctx"}, sWrap("slice", sBasic("string")), {K: "any"}, {K: "map"}}))
	}
	return ps
}

func (g *sGen) fn(anon bool) sType {
	t := g.out(0, 2, anon)
	outs := []sType{t}
	if canID(t) && g.one(0.2) {
		outs = append(outs, sType{K: "attrid"})
	}
	if g.one(0.3) {
		outs = append(outs, sType{K: "error"})
	}
	g.r.Shuffle(len(outs), func(i, j int) { outs[i], outs[j] = outs[j], outs[i] })
	if g.bad > 0 && g.one(0.1) {
		g.bad--
		outs = pick(g.r, [][]sType{{}, {{K: "error"}}, {sBasic("int"), sBasic("int")}, {sBasic("int"), {K: "error"}, {K: "error"}}, {{K: "attrid"}}, {sBasic("bool"), {K: "attrid"}}})
	}
	f := sFunc(g.params(anon), outs)
	if g.bad > 0 && g.one(0.05) {
		g.bad--
		ps := append(append([]sType{}, *f.Params...), sWrap("slice", sBasic("int")))
		f.Params = &ps
		f.Variadic = ptrTo(true)
	}
	return f
}

func (n sName) method(t sType) sMethod {
	return sMethod{Go: n.go_, Res: true, Low: n.low, Up2: n.up2, Good: true, T: t}
}

func randomDef(r *rand.Rand) *sDef {
	g := &sGen{r: r, nObj: 1 + r.Intn(5)}
	if g.one(0.3) {
		g.bad = 1
	}
	str := func(xs ...string) []string { return append([]string{}, xs...) }
	for i := r.Intn(3); i > 0; i-- {
		n := fmt.Sprintf("%%E%d", i)
		ms := str("A", "bB", "c_9", "DD", "e", "on", "query")[:1+r.Intn(6)]
		g.decls = append(g.decls, sDecl{N: n, K: "basic", Ql: n, Under: pick(r, []string{"int", "int8", "uint16", "string", "uint64", "int64"}), Members: ms})
		g.enums = append(g.enums, n)
	}
	for i := r.Intn(2); i > 0; i-- {
		n := fmt.Sprintf("%%B%d", i)
		g.decls = append(g.decls, sDecl{N: n, K: "basic", Ql: n, Under: pick(r, sBasics)})
		g.basics = append(g.basics, n)
	}
	nIfs := r.Intn(3)
	for i := 0; i < nIfs; i++ {
		g.ifs = append(g.ifs, fmt.Sprintf("%%I%d", i))
	}
	nIns := r.Intn(4)
	for i := 0; i < nIns; i++ {
		g.ins = append(g.ins, fmt.Sprintf("%%N%d", i))
	}
	for i := 0; i < nIns; i++ {
		n := g.ins[i]
		d := sDecl{N: n, K: "struct", Ql: n, Fs: g.inFields(i+1, 2, 4)}
		if g.one(0.2) {
			d.Ql = "%rn_" + fmt.Sprint(i)
		}
		g.decls = append(g.decls, d)
	}
	impls := make([][]string, g.nObj)
	extra := make([][]sMethod, g.nObj)
	for i := 0; i < nIfs; i++ {
		d := sDecl{N: g.ifs[i], K: "iface", Ql: g.ifs[i]}
		for j := r.Intn(3); j >= 0; j-- {
			nm := sName{fmt.Sprintf("Meth%d%d", i, j), fmt.Sprintf("meth%d%d", i, j), false}
			d.Ms = append(d.Ms, nm.method(g.fn(false)))
		}
		if g.one(0.2) {
			d.Ms = append(d.Ms, sMethod{Go: fmt.Sprintf("Plain%d", i), Low: "", T: sFunc(nil, []sType{{K: "map"}})})
		}
		for j := 1 + r.Intn(2); j > 0; j-- {
			o := r.Intn(g.nObj)
			dup := false
			for _, x := range impls[o] {
				dup = dup || x == d.N
			}
			if dup {
				continue
			}
			impls[o] = append(impls[o], d.N)
			extra[o] = append(extra[o], d.Ms...)
		}
		g.decls = append(g.decls, d)
	}
	// something to embed
	emb := sDecl{N: "%Emb", K: "struct", Ql: "%Emb", Fs: []sField{sName{"Inner", "inner", false}.field(sBasic("int"))},
		Ms: []sMethod{sName{"Embedded", "embedded", false}.method(sFunc(nil, []sType{sBasic("string")}))}}
	g.decls = append(g.decls, emb)
	for i := 0; i < g.nObj; i++ {
		n := fmt.Sprintf("%%O%d", i)
		d := sDecl{N: n, K: "struct", Ql: n, Impl: impls[i]}
		nm := g.names()
		used := map[string]bool{}
		for j := r.Intn(5); j > 0; j-- {
			var f sField
			if g.one(0.2) {
				f = nm().field(g.fn(true))
				if g.one(0.2) {
					f.Go, f.Low, f.Up2 = "Resolve"+f.Go, "resolve"+f.Go, false
				}
			} else {
				f = nm().field(g.out(i+1, 2, true))
			}
			g.tag(&f, used)
			d.Fs = append(d.Fs, f)
		}
		for j := r.Intn(3); j > 0; j-- {
			d.Ms = append(d.Ms, nm().method(g.fn(true)))
		}
		if g.one(0.2) {
			d.Ms = append(d.Ms, sMethod{Go: pick(r, []string{"Other", "Resolver", "String", "resolveB"}), T: sFunc(nil, []sType{})})
		}
		d.Ms = append(d.Ms, extra[i]...)
		if g.one(0.25) {
			d.Fs = append(d.Fs, sField{Go: "%Emb", Low: "", Good: true, Exp: true, Emb: true, Tag: sNoTag(), T: sNamed("%Emb")})
			p := emb.Ms[0]
			p.Prom = true
			d.Ms = append(d.Ms, p)
		}
		if g.one(0.2) {
			d.Ql = "%Re_" + fmt.Sprint(i)
		}
		g.decls = append(g.decls, d)
	}
	// objects that can be used as input as well
	q := sDecl{N: "%Q", K: "struct", Ql: "%Q"}
	mu := sDecl{N: "%M", K: "struct", Ql: "%M"}
	for k, d := range []*sDecl{&q, &mu} {
		nm := g.names()
		for j := r.Intn(4 - 2*k); j >= 0; j-- {
			d.Fs = append(d.Fs, nm().field(g.out(0, 2, true)))
		}
		for j := r.Intn(3); j > 0; j-- {
			d.Ms = append(d.Ms, nm().method(g.fn(true)))
		}
	}
	if g.one(0.3) {
		both := sDecl{N: "%Both", K: "struct", Ql: "%Both", Fs: []sField{sName{"Aa", "aa", false}.field(sBasic("int")), sName{"Bb", "bb", false}.field(sWrap("ptr", sNamed("%Both"))), sName{"Cc", "cc", false}.field(sNamed(pick(r, append([]string{"GE", "GB"}, g.enums...))))}}
		if g.one(0.3) {
			both.Ql = "%BothRenamed"
		}
		g.decls = append(g.decls, both)
		mu.Ms = append(mu.Ms, sName{"TakesBoth", "takesBoth", false}.method(sFunc([]sType{{K: "anon", Fs: &[]sField{sName{"V", "v", false}.field(sWrap("slice", sNamed("%Both")))}}}, []sType{sNamed("%Both")})))
		if g.one(0.5) {
			q.Fs = append(q.Fs, sName{"HasBoth", "hasBoth", false}.field(sWrap("slice", sNamed("%Both"))))
		}
	}
	g.decls = append(g.decls, q, mu)
	g.decls = append(g.decls, sLib()...)
	def := &sDef{Decls: g.decls, Q: sNamed("%Q"), Mu: sNamed("%M"), Dirs: []sDir{}}
	for i := r.Intn(3); i > 0; i-- {
		locs := []string{"FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"}
		r.Shuffle(3, func(a, b int) { locs[a], locs[b] = locs[b], locs[a] })
		def.Dirs = append(def.Dirs, sDir{N: fmt.Sprintf("dir%d", i), Locs: locs[:1+r.Intn(3)], Desc: fmt.Sprintf("the %d", i), Params: g.params(true)})
	}
	for i := range def.Decls {
		d := &def.Decls[i]
		if d.Fs == nil {
			d.Fs = []sField{}
		}
		if d.Ms == nil {
			d.Ms = []sMethod{}
		}
		if d.Impl == nil {
			d.Impl = []string{}
		}
		if d.Members == nil {
			d.Members = []string{}
		}
		d.Tgood = true
	}
	return def
}

func sLib() []sDecl {
	getN := []sMethod{sName{"N", "n", false}.method(sFunc(nil, []sType{sBasic("string")}))}
	return []sDecl{
		{N: "GE", K: "basic", Ql: "GE", Under: "int8", Members: []string{"Xa", "Yb"}},
		{N: "GB", K: "basic", Ql: "GB", Under: "int16"},
		{N: "GN", K: "iface", Ql: "GN", Ms: getN},
	}
}

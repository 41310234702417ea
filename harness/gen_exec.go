package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

// The field table used to generate documents: what kind of thing a field leads to.
// It only steers generation, the specification has its own (spec/Exec.tla).
type fInfo struct {
	to  string // "" leaf, otherwise Obj Alt Renamed Nd
	arg bool
}

var qObj = map[string]fInfo{
	"a": {}, "n": {}, "URL": {}, "tagged": {}, "p": {}, "pp": {}, "ls": {}, "lp": {}, "lls": {},
	"ec": {}, "ecl": {}, "td": {}, "tdl": {}, "ar": {}, "mec": {}, "mtd": {},
	"op": {to: "Obj"}, "ol": {to: "Obj"}, "opl": {to: "Obj"}, "oll": {to: "Obj"}, "olp": {to: "Obj"}, "x": {to: "Alt"},
	"i": {to: "Nd"}, "il": {to: "Nd"}, "ill": {to: "Nd"}, "ip": {to: "Nd"},
	"bo": {}, "fl8": {}, "u8": {}, "id": {}, "l3": {}, "plp": {}, "lpl": {}, "ax": {to: "Alt"}, "aop": {to: "Obj"}, "ppo": {to: "Obj"}, "lpp": {to: "Obj"},
	"ipl": {to: "Nd"}, "fi": {to: "Nd"}, "fg": {arg: true}, "mll": {to: "Obj"}, "mpl": {to: "Obj"}, "mpo": {to: "Obj"}, "emb": {},
	"nm": {to: "Nm"}, "nml": {to: "Nm"}, "mnm": {to: "Nm"}, "bv": {to: "Bare"}, "bq": {to: "Bare"},
	"f": {}, "fo": {to: "Obj"}, "fl": {to: "Obj"}, "m": {}, "mo": {to: "Obj"}, "ml": {to: "Obj"},
	"mi": {to: "Nd"}, "mil": {to: "Nd"}, "me": {}, "g": {arg: true}, "go": {to: "Obj", arg: true}, "h": {arg: true},
}

var genFields = map[string]map[string]fInfo{
	"Q": qObj, "Obj": qObj,
	"M": {"a": {}, "ls": {}, "op": {to: "Obj"}, "ol": {to: "Obj"}, "opl": {to: "Obj"}, "i": {to: "Nd"}, "il": {to: "Nd"},
		"f": {}, "fo": {to: "Obj"}, "m": {}, "mo": {to: "Obj"}, "ml": {to: "Obj"}, "mi": {to: "Nd"}, "g": {arg: true}},
	"Alt":     {"a": {}, "z": {}, "op": {to: "Obj"}, "il": {to: "Nd"}, "m": {}, "mo": {to: "Obj"}},
	"Renamed": {"a": {}, "r": {}, "i": {to: "Nd"}, "m": {}, "mo": {to: "Obj"}, "ml": {to: "Obj"}},
	"Bare":    {"m": {}, "mo": {to: "Obj"}, "b": {to: "Bare"}, "bp": {to: "Bare"}, "bl": {to: "Bare"}},
	"Nd":      {"m": {}, "mo": {to: "Obj"}, "a": {}},
	"Nm":      {"m": {}, "mo": {to: "Obj"}, "a": {}},
}

// profile steers random generation. All are probabilities in percent unless noted
type profile struct {
	Mut, Frag, Inline, Dir, Iface, Err, Bad, Args, Method, Multi, Trace, Copy, Cache int
	Ctx, Act, Panic                                                                  int
	Depth                                                                            int // percent of cases with a low max depth
	MaxNest, MaxItems, Values, Put                                                   int
	BadDir, BadFrag                                                                  int
	Vars                                                                             int
	DupAlias                                                                         bool
	Huge                                                                             bool // now and then huge lists, selection sets and texts
	Style                                                                            int  // percent of noisy styles
	ListMax                                                                          int
	Fields                                                                           []string // preferred fields
}

func basicProfile() profile {
	return profile{Mut: 20, Frag: 15, Inline: 15, Dir: 8, Iface: 20, Args: 10, Method: 35, Multi: 8, MaxNest: 5, MaxItems: 14, Style: 40, Vars: 30, ListMax: 3, Cache: 30}
}

type gen struct {
	longList bool
	hugeList bool
	wide     int // a selection set at this level gets a lot of fields
	inWide   bool
	longAll  bool

	r     *rand.Rand
	p     profile
	c     *Case
	left  int
	names int
	vars  []Var
}

func (g *gen) pct(p int) bool           { return p > 0 && g.r.Intn(100) < p }
func (g *gen) pick(xs ...string) string { return xs[g.r.Intn(len(xs))] }

var leafPool = []string{"", "x", "yy", "a b", "é", "😀", `q"q`, `b\b`, "t\tt", "l\nl", "</s>", "0", "null", "\u007f\u0001"}

// long makes some names long, up to the longest that the parser takes
func (g *gen) long(name string) string {
	if g.longAll {
		return name + strings.Repeat("_", 254-len(name))
	}
	if g.r.Intn(16) > 0 {
		return name
	}
	n := []int{31, 63, 100, 127, 128, 129, 200, 253, 254}[g.r.Intn(9)]
	if n < len(name) {
		return name
	}
	return name + strings.Repeat("_", n-len(name)-n%2) + strings.Repeat("9", n%2)
}

// genWorld: node 1 = Q, 2 = M, then Obj and Renamed, at the end Alt
func (g *gen) genWorld() World {
	r := g.r
	n := 2 + r.Intn(4)
	w := World{Nodes: []WNode{{Ty: "Q"}, {Ty: "M"}}}
	for i := 0; i < n; i++ {
		t := "Obj"
		if r.Intn(4) == 0 {
			t = "Renamed"
		}
		w.Nodes = append(w.Nodes, WNode{Ty: t})
	}
	w.Nodes = append(w.Nodes, WNode{Ty: "Obj"})
	alts := 1 + r.Intn(2)
	for i := 0; i < alts; i++ {
		w.Nodes = append(w.Nodes, WNode{Ty: "Alt"})
	}
	w.Nodes = append(w.Nodes, WNode{Ty: "Bare"})
	for i := range w.Nodes {
		w.Nodes[i].Vals = map[string]Val{}
		for _, f := range sortedKeys(genFields[w.Nodes[i].Ty]) {
			switch f {
			case "p", "pp", "ls", "lp", "lls", "ol", "opl", "oll", "olp", "il", "ill", "ip", "ecl", "tdl", "nml", "bo", "fl8", "u8", "id", "l3", "plp", "lpl",
				"ppo", "lpp", "ipl", "fi", "fg", "fo", "fl":
				if g.r.Intn(4) == 0 || i >= 2 && !g.p.Huge && g.r.Intn(2) == 0 {
					continue // the zero value
				}
			}
			// only the roots have long lists: nothing refers to a root, so answers stay small
			g.longList = i < 2 && g.r.Intn(10) == 0 && !strings.HasPrefix(f, "ll") && f != "oll" && f != "ill"
			switch f {
			case "ls", "lp", "ecl", "opl", "il", "mil", "mpl":
				g.hugeList = g.p.Huge && i < 2 && g.r.Intn(150) == 0
			}
			v, ok := g.genVal(w, i+1, f)
			g.longList, g.hugeList = false, false
			if ok {
				w.Nodes[i].Vals[f] = v
			}
		}
	}
	return w
}

func sortedKeys(m map[string]fInfo) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sortStrings(res)
	return res
}

func (g *gen) leaf() Val { return Val{K: "leaf", S: leafPool[g.r.Intn(len(leafPool))]} }

// color is a member, or a value that is no member
func (g *gen) color() Val {
	if g.r.Intn(5) == 0 {
		return Val{K: "null"}
	}
	return Val{K: "leaf", S: g.pick("RED", "GREEN", "BLUE_2")}
}
func (g *gen) date() Val {
	return Val{K: "leaf", S: g.pick("2021-01-02T03:04:05.006Z", "1970-01-01T00:00:00.000Z", "0001-01-01T00:00:00.000Z", "9999-12-31T23:59:59.999Z", "2000-02-29T12:00:00.500Z")}
}

// nodeOf picks a node of one of the types, later: only ids after id
func (g *gen) nodeOf(w World, after int, tys ...string) Val {
	c := []int{}
	for i, n := range w.Nodes {
		for _, t := range tys {
			if n.Ty == t && i+1 > after {
				c = append(c, i+1)
			}
		}
	}
	if len(c) == 0 {
		return Val{K: "null"}
	}
	return Val{K: "node", N: c[g.r.Intn(len(c))]}
}

func (g *gen) list(f func() Val) Val {
	if g.r.Intn(8) == 0 {
		return Val{K: "null"}
	}
	n := g.r.Intn(g.p.ListMax + 1)
	if g.longList {
		n = 9 + g.r.Intn(14) // indexes of more than one digit
	}
	if g.hugeList {
		n = 250 + g.r.Intn(70) // of more than a byte
	}
	v := Val{K: "list", Xs: []Val{}}
	for i := 0; i < n; i++ {
		x := f()
		if g.hugeList && x.K == "node" && g.r.Intn(60) > 0 && (i < 255 || g.r.Intn(10) > 0) {
			x = Val{K: "null"}
		}
		v.Xs = append(v.Xs, x)
	}
	return v
}

func (g *gen) orNull(v Val) Val {
	if g.r.Intn(6) == 0 {
		return Val{K: "null"}
	}
	return v
}

func (g *gen) genVal(w World, id int, f string) (Val, bool) {
	obj := func() Val { return g.orNull(g.nodeOf(w, 0, "Obj")) }
	objByVal := func() Val { return g.nodeOf(w, id, "Obj") }
	nd := func(after int) Val {
		if g.r.Intn(8) == 0 {
			return Val{K: g.pick("rogue", "rogueptr", "roguelocal", "roguelocal2", "null")}
		}
		return g.nodeOf(w, after, "Obj", "Alt", "Renamed", "Bare")
	}
	noNulls := func(v Val) Val { // lists of objects by value cannot hold null
		if v.K != "list" {
			return v
		}
		xs := []Val{}
		for _, x := range v.Xs {
			if x.K != "null" {
				xs = append(xs, x)
			}
		}
		v.Xs = xs
		return v
	}
	res := func(v Val) Val {
		x := Val{K: "res", V: &v}
		if g.pct(g.p.Err) {
			x.Err = fmt.Sprintf("e%d%s", id, f)
			if g.r.Intn(6) == 0 {
				x.Err += g.pick(`"q"`, "\n", "é", "%s", "\\", "😀")
			} else if g.r.Intn(10) == 0 {
				x.Err = "(empty)"
			}
		}
		if g.pct(g.p.Act) {
			x.Act = g.pick("cancel", "cancel", "setlive", "setdead", "setnil", "setlate", "setodd")
		}
		if g.pct(g.p.Put) {
			x.Act = g.pick("put1a", "put1b", "put2a", "put1nil", "put2nil")
		}
		if g.pct(g.p.Panic) {
			x.Act = "panic"
		}
		return x
	}
	mnd := func() Val { return nd(0) }
	switch f {
	case "a", "URL", "tagged", "z", "r":
		return g.leaf(), true
	case "bo":
		return Val{K: "leaf", S: g.pick("true", "false")}, true
	case "fl8":
		return Val{K: "leaf", S: g.pick("0", "0.5", "-2", "1e+300", "3.25")}, true
	case "u8":
		return Val{K: "leaf", S: g.pick("0", "7", "128", "255")}, true
	case "id":
		return Val{K: "leaf", S: g.pick("0", "12", "-3", "2147483648")}, true
	case "l3":
		return g.list(func() Val { return g.list(func() Val { return g.list(g.leaf) }) }), true
	case "plp":
		return g.list(func() Val { return g.orNull(g.leaf()) }), true
	case "lpl":
		return g.list(func() Val { return g.list(g.leaf) }), true
	case "ax":
		return Val{K: "list", Xs: []Val{g.nodeOf(w, id, "Alt"), g.nodeOf(w, id, "Alt")}}, true
	case "aop":
		return Val{K: "list", Xs: []Val{obj(), obj()}}, true
	case "ppo":
		return obj(), true
	case "lpp", "mpl":
		if f == "mpl" {
			return res(g.list(obj)), true
		}
		return g.list(obj), true
	case "ipl":
		return g.list(func() Val { return nd(id) }), true
	case "mll":
		return res(g.list(func() Val { return g.list(obj) })), true
	case "mpo":
		return res(obj()), true
	case "fi":
		if g.r.Intn(6) == 0 {
			return Val{K: "null"}, true
		}
		return res(mnd()), true
	case "ec":
		return g.color(), true
	case "ecl":
		return g.list(g.color), true
	case "td":
		return g.date(), true
	case "tdl":
		return g.list(func() Val { return g.orNull(g.date()) }), true
	case "mec":
		return res(g.color()), true
	case "mtd":
		return res(g.orNull(g.date())), true
	case "ar":
		return Val{K: "list", Xs: []Val{g.leaf(), g.leaf()}}, true
	case "n":
		return Val{K: "leaf", S: g.pick("0", "7", "-3", "2147483647", "-9223372036854775808")}, true
	case "p", "pp":
		return g.orNull(g.leaf()), true
	case "ls":
		return g.list(g.leaf), true
	case "lp":
		return g.list(func() Val { return g.orNull(g.leaf()) }), true
	case "lls":
		return g.list(func() Val { return g.list(g.leaf) }), true
	case "op":
		return obj(), true
	case "ol":
		return noNulls(g.list(objByVal)), true
	case "opl":
		return g.list(obj), true
	case "oll":
		return g.list(func() Val { return noNulls(g.list(objByVal)) }), true
	case "olp":
		return noNulls(g.list(objByVal)), true
	case "x":
		return g.nodeOf(w, id, "Alt"), true
	case "bv":
		return g.nodeOf(w, 0, "Bare"), true
	case "bq":
		return g.orNull(g.nodeOf(w, 0, "Bare")), true
	case "b":
		return res(g.nodeOf(w, 0, "Bare")), true
	case "bp":
		return res(g.orNull(g.nodeOf(w, 0, "Bare"))), true
	case "bl":
		return res(g.list(func() Val { return g.nodeOf(w, 0, "Bare") })), true
	case "mnm":
		return res(mnd()), true
	case "i", "ip", "nm":
		return nd(id), true
	case "il", "nml":
		return g.list(func() Val { return nd(id) }), true
	case "ill":
		return g.list(func() Val { return g.list(func() Val { return nd(id) }) }), true
	case "f", "m", "me", "h", "emb":
		if f == "f" && g.r.Intn(6) == 0 {
			return Val{K: "null"}, true
		}
		return res(g.leaf()), true
	case "fo", "mo", "go":
		if f == "fo" && g.r.Intn(6) == 0 {
			return Val{K: "null"}, true
		}
		return res(obj()), true
	case "fl", "ml":
		if f == "fl" && g.r.Intn(6) == 0 {
			return Val{K: "null"}, true
		}
		return res(noNulls(g.list(func() Val { return g.nodeOf(w, 0, "Obj") }))), true
	case "mi":
		return res(mnd()), true
	case "mil":
		return res(g.list(mnd)), true
	case "g", "fg":
		if f == "fg" && g.r.Intn(6) == 0 {
			return Val{K: "null"}, true
		}
		return res(Val{K: "leaf", S: "0"}), true
	}
	return Val{}, false
}

func (g *gen) dirs(loc string) []Dir {
	ds := []Dir{}
	for g.pct(g.p.Dir) && len(ds) < 3 {
		d := Dir{Pos: g.pick("pre", "post")}
		d.Name = g.pick("skip", "include")
		d.Val = g.pick("T", "F")
		if d.Name == "skip" && g.r.Intn(3) > 0 {
			d.Val = "F"
		}
		if d.Name == "include" && g.r.Intn(3) > 0 {
			d.Val = "T"
		}
		if g.r.Intn(6) == 0 {
			d.Name = map[string]string{"field": "tag", "spread": "spr", "inline": "inl"}[loc]
		} else if g.r.Intn(12) == 0 {
			d.Name, d.Val = "hide", "none"
		}
		if g.pct(g.p.Put) {
			d.Name, d.Val = "put", "none"
		}
		if len(g.vars) > 0 && d.Val != "none" && g.r.Intn(2) == 0 {
			d.Val, d.Var = "var", g.vars[g.r.Intn(len(g.vars))].Name
		}
		if g.pct(g.p.BadDir) {
			switch g.r.Intn(4) {
			case 0:
				d = Dir{Name: "nope", Val: g.pick("T", "none"), Pos: d.Pos}
			case 1:
				d.Val, d.Var = "var", "undeclared"
			case 2:
				d = Dir{Name: g.pick("tag", "spr", "inl"), Val: g.pick("T", "F"), Pos: d.Pos}
			case 3:
				d = Dir{Name: "hide", Val: "T", Pos: d.Pos}
			}
		}
		if d.Val == "none" {
			d.Pos = "post" // otherwise the arguments of the field would be those of the directive
		}
		ds = append(ds, d)
	}
	return ds
}

var typeNames = []string{"Obj", "Alt", "Renamed", "Nd", "Nm", "Bare", "Q", "M", "Ren", "Rogue", "Ob", "Nope"}

func (g *gen) sel(ty string, nest int, inFrag int) []Item {
	n := 1 + g.r.Intn(4)
	if g.wide == nest && !g.inWide {
		keep := g.left
		n = 40 + g.r.Intn(80)
		if nest == 1 {
			n = 100 + g.r.Intn(220)
		}
		g.left, g.wide, g.inWide, g.longAll = n, 0, true, g.r.Intn(2) == 0
		defer func() { g.left, g.inWide, g.longAll = keep, false, false }()
	}
	items := []Item{}
	used := map[string]bool{}
	for j := 0; j < n || len(items) == 0; j++ {
		if g.left <= 0 && len(items) > 0 {
			break
		}
		g.left--
		roll := g.r.Intn(100)
		switch {
		case roll < g.p.Frag && g.left > 0 && !g.inWide:
			it := Item{K: "s", Dirs: g.dirs("spread")}
			var cand []int
			for fi := range g.c.Frags {
				if fi > inFrag || g.pct(g.p.BadFrag) {
					cand = append(cand, fi)
				}
			}
			if len(cand) == 0 || g.pct(g.p.BadFrag) && g.r.Intn(3) == 0 {
				if !g.pct(g.p.BadFrag) {
					continue
				}
				it.Name = g.long(g.pick("Undefined", "f", "F1x", "F11"))
				if g.r.Intn(3) == 0 {
					it.Name = strings.Repeat("U", 20+g.r.Intn(230))
				}
			} else {
				it.Name = g.c.Frags[cand[g.r.Intn(len(cand))]].Name
			}
			items = append(items, it)
		case roll < g.p.Frag+g.p.Inline && g.left > 0 && nest < g.p.MaxNest:
			on := ty
			if ty == "Nd" || ty == "Nm" {
				on = g.pick("Obj", "Alt", "Renamed", "Bare", "Nm", "Nd", ty)
			} else if g.r.Intn(3) == 0 {
				on = g.pick(typeNames...)
			}
			if g.r.Intn(6) == 0 {
				on = ""
			}
			it := Item{K: "i", Name: on, Dirs: g.dirs("inline")}
			st := on
			if genFields[st] == nil {
				st = ty
			}
			it.Sel = g.sel(st, nest+1, inFrag)
			items = append(items, it)
		default:
			it := g.field(ty, nest, inFrag)
			if used[it.Alias] && !g.p.DupAlias {
				g.names++
				it.Alias = g.long(fmt.Sprintf("%s%d", g.pick("al", "_x", "Z", "on", "query", "fragment", "true_"), g.names))
			}
			used[it.Alias] = true
			items = append(items, it)
		}
	}
	return items
}

func (g *gen) field(ty string, nest int, inFrag int) Item {
	fs := genFields[ty]
	keys := sortedKeys(fs)
	name := keys[g.r.Intn(len(keys))]
	if len(g.p.Fields) > 0 && g.r.Intn(2) == 0 {
		k := g.p.Fields[g.r.Intn(len(g.p.Fields))]
		if _, ok := fs[k]; ok {
			name = k
		}
	}
	if g.r.Intn(10) == 0 {
		name = "__typename"
	}
	if g.left <= 0 || nest >= g.p.MaxNest || g.inWide {
		leafs := []string{}
		for _, k := range keys {
			if fs[k].to == "" {
				leafs = append(leafs, k)
			}
		}
		name = leafs[g.r.Intn(len(leafs))]
	}
	it := Item{K: "f", Name: name, Args: "none", Dirs: g.dirs("field")}
	info := fs[name]
	if info.arg && g.r.Intn(3) > 0 {
		it.Args, it.N = "ok", fmt.Sprint(g.r.Intn(2000)-1000)
	} else if info.arg {
		it.N = "0"
	}
	if name == "h" {
		it.Args, it.N = "none", "0"
		if g.r.Intn(6) > 0 {
			g.hargs(&it)
		}
	}
	if info.to != "" {
		it.Sel = g.sel(info.to, nest+1, inFrag)
	}
	if g.pct(g.p.Bad) && name != "h" {
		switch g.r.Intn(5) {
		case 0:
			it.Name, it.Sel = g.pick("nope", "A", "resolveM", "w", "id", "__typenam", "aa", ""+name+"x"), nil
			if g.r.Intn(2) == 0 {
				it.Sel = g.sel("Obj", nest+1, inFrag)
			}
		case 1:
			if info.to == "" {
				it.Sel = g.sel("Obj", nest+1, inFrag)
			} else {
				it.Sel = nil
			}
		case 2:
			it.Args, it.N = "bad", "0"
		case 3:
			it.Args, it.N = "unk", "0"
		case 4:
			it.Args, it.N = "ok", "5"
		}
		if it.Name == "__typename" {
			it.Args = "none"
		}
	}
	it.Alias = it.Name
	if g.r.Intn(4) == 0 || g.longAll {
		g.names++
		it.Alias = g.long(fmt.Sprintf("%s%d", g.pick("b", "Ab", "_", "__t", "zz_9_"), g.names))
	}
	return it
}

// hargs gives the resolver h arguments, some of them through variables
func (g *gen) hargs(it *Item) {
	text := func() string {
		s := ""
		if g.p.Huge && g.r.Intn(600) == 0 {
			return strings.Repeat("long", 14000+g.r.Intn(4000))
		}
		for g.r.Intn(4) > 0 && len(s) < 60 {
			s += g.pick(leafPool...) + g.pick("abc", "", "value", "0123456789")
		}
		return s
	}
	lit := func(v interface{}) []string {
		b, _ := json.Marshal(v)
		s := string(b)
		if g.r.Intn(2) == 0 {
			s = strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&").Replace(s)
		}
		return []string{s}
	}
	value := func(typ string, v interface{}, src []string) []string {
		if g.r.Intn(2) == 0 {
			return src
		}
		b, _ := json.Marshal(v)
		name := fmt.Sprintf("s%d", len(g.c.SVars))
		g.c.SVars = append(g.c.SVars, SVar{name, typ, string(b)})
		return []string{"$", name}
	}
	var s, id, os string
	var l, ol []string
	parts := [][]string{}
	add := func(name string, src []string) { parts = append(parts, append([]string{name, ":"}, src...)) }
	if g.r.Intn(4) > 0 {
		s = text()
		add("s", value("String !", s, lit(s)))
	}
	if g.r.Intn(3) == 0 {
		id = text()
		add("id", value("ID !", id, lit(id)))
	}
	if g.r.Intn(3) == 0 {
		l = []string{}
		src := []string{"["}
		for i := 0; i < g.r.Intn(4); i++ {
			l = append(l, text())
			src = append(src, value("String !", l[i], lit(l[i]))...)
		}
		add("l", value("[ String ! ]", l, append(src, "]")))
	}
	if g.r.Intn(3) == 0 {
		os = text()
		src := []string{"{", "s", ":"}
		src = append(src, value("String !", os, lit(os))...)
		src = append(src, "l", ":", "[")
		objs := []map[string]string{}
		for i := 0; i < g.r.Intn(3); i++ {
			ol = append(ol, text())
			objs = append(objs, map[string]string{"t": ol[i]})
			src = append(src, "{", "t", ":")
			src = append(src, value("String !", ol[i], lit(ol[i]))...)
			src = append(src, "}")
		}
		src = append(src, "]", "}")
		add("o", value("HObj !", map[string]interface{}{"s": os, "l": objs}, src))
	}
	it.Argv = []string{"S", s, "ID", id, "OS", os}
	for _, x := range l {
		it.Argv = append(it.Argv, "L", x)
	}
	for _, x := range ol {
		it.Argv = append(it.Argv, "OL", x)
	}
	if g.r.Intn(4) == 0 {
		p := text()
		add("p", value("String", p, lit(p)))
		it.Argv = append(it.Argv, "P", p)
	}
	if len(parts) == 0 {
		return
	}
	g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		it.Src = append(it.Src, p...)
	}
	it.Args = "h"
}

func genExecCase(r *rand.Rand, p profile) *Case {
	c := genExec(r, p, nil)
	c.finish(r)
	return c
}

// genExec generates a case; with a world given the case gets none of its own
func genExec(r *rand.Rand, p profile, world *World) *Case {
	limit := 1200
	if p.Huge {
		limit = 2500
	}
	for {
		c := genExecOnce(r, p, world)
		w := world
		if w == nil {
			w = c.World
		}
		e := estimate{c: c, w: w}
		for _, op := range c.Ops {
			root := 1
			if op.Kind == "mutation" {
				root = 2
			}
			e.sel(op.Sel, root, 0)
		}
		if e.n <= limit {
			return c
		}
	}
}

// estimate counts how much is written for a document, lists in lists add up quickly
type estimate struct {
	c *Case
	w *World
	n int
}

func (e *estimate) sel(items []Item, node, depth int) {
	if depth > 30 || e.n > 5000 {
		return
	}
	for _, it := range items {
		switch it.K {
		case "f":
			e.n++
			e.val(e.w.Nodes[node-1].Vals[it.Name], it, depth)
		case "s":
			for _, f := range e.c.Frags {
				if f.Name == it.Name {
					e.sel(f.Sel, node, depth+1)
					break
				}
			}
		default:
			e.sel(it.Sel, node, depth+1)
		}
	}
}

func (e *estimate) val(v Val, it Item, depth int) {
	if v.V != nil {
		e.val(*v.V, it, depth)
		return
	}
	e.n++
	switch v.K {
	case "node":
		e.sel(it.Sel, v.N, depth+1)
	case "list":
		for _, x := range v.Xs {
			e.val(x, it, depth)
		}
	}
}

func genExecOnce(r *rand.Rand, p profile, world *World) *Case {
	c := &Case{MaxDepth: 255, Ctx: "none", CacheLen: -1}
	g := &gen{r: r, p: p, c: c}
	if world == nil {
		w := g.genWorld()
		c.World = &w
	}
	g.left = 2 + r.Intn(p.MaxItems)
	if p.Huge && r.Intn(300) == 0 {
		g.wide = 1
	} else if p.Huge && r.Intn(900) == 0 {
		g.wide = 2
	}
	if g.pct(p.Vars) {
		for i := 0; i < 1+r.Intn(3); i++ {
			v := Var{Name: g.long(fmt.Sprintf("%s%d", g.pick("v", "V", "_v"), i))}
			switch r.Intn(5) {
			case 0:
				v.Def = g.pick("T", "F")
			case 1:
				v.Def = g.pick("T", "F")
				v.Given = g.pick("T", "F", "null")
			default:
				v.Given = g.pick("T", "F")
			}
			if g.pct(p.BadDir) && r.Intn(3) == 0 {
				v.Def, v.Given = "", ""
			}
			g.vars = append(g.vars, v)
		}
	}
	nfrag := 0
	if p.Frag > 0 {
		nfrag = r.Intn(4)
	}
	fnames := []string{"F1", "F11", "f", "F", "Fx", "onX", "F1_"}
	r.Shuffle(len(fnames), func(i, j int) { fnames[i], fnames[j] = fnames[j], fnames[i] })
	for i := 0; i < nfrag; i++ {
		c.Frags = append(c.Frags, Frag{Name: g.long(fnames[i]), On: g.pick("Obj", "Obj", "Alt", "Renamed", "Nd", "Nd", "Nm", "Bare", "Q", "M")})
	}
	pos := r.Perm(nfrag + 4)
	for i := nfrag - 1; i >= 0; i-- {
		if r.Intn(6) == 0 {
			c.Frags[i].On = g.pick(typeNames...)
		}
		t := c.Frags[i].On
		if genFields[t] == nil {
			t = "Obj"
		}
		keep := g.left
		g.left = 1 + r.Intn(4)
		c.Frags[i].Sel = g.sel(t, p.MaxNest-2, i)
		c.Frags[i].Pos = pos[i]
		g.left = keep
	}
	mk := func(name string, i int) {
		op := Op{Name: name, Kind: "query", Pos: pos[nfrag+i], Vars: append([]Var{}, g.vars...)}
		if i > 0 {
			// the same variables with other defaults, they belong to the operation
			for j := range op.Vars {
				if op.Vars[j].Def != "" && r.Intn(2) == 0 {
					op.Vars[j].Def = g.pick("T", "F")
				}
			}
		}
		t := "Q"
		if g.pct(p.Mut) {
			op.Kind, t = "mutation", "M"
		} else if name == "" && len(g.vars) == 0 && r.Intn(2) == 0 {
			op.Kind = ""
		}
		op.Sel = g.sel(t, 1, -1)
		c.Ops = append(c.Ops, op)
	}
	if g.pct(p.Multi) {
		names := []string{"A", "AA", "a", "B"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		k := 2 + r.Intn(2)
		for i := 0; i < k; i++ {
			g.left = 2 + r.Intn(6)
			names[i] = g.long(names[i])
			if i == 0 && r.Intn(4) == 0 {
				names[i] = "" // can not be the target
			}
			mk(names[i], i)
		}
		c.Target = names[1+r.Intn(len(names)-1)]
		if r.Intn(k) == 0 && names[0] != "" {
			c.Target = names[0]
		}
		if r.Intn(8) == 0 && len(c.Target) > 1 {
			c.Target = c.Target[:len(c.Target)-1] // of nearly the name
		} else if r.Intn(12) == 0 {
			c.Target = g.nearName(c.Target)
		}
	} else {
		mk(g.pick("", "", "A", "query"), 0)
		if c.Ops[0].Name != "" && r.Intn(3) == 0 {
			c.Target = c.Ops[0].Name
		}
		if r.Intn(30) == 0 || p.Multi > 50 && r.Intn(4) == 0 {
			c.Target = g.pick("Z", "queryx", "A_", "F1", strings.Repeat("n", 255), strings.Repeat("A", 300), strings.Repeat("A", 65536+1), g.nearName(g.pick("A", "query", c.Ops[0].Name+"_"))) // of no operation
		}
	}
	if g.pct(p.Depth) {
		c.MaxDepth = 1 + r.Intn(5)
	}
	c.Tracing = g.pct(p.Trace)
	c.Copy = g.pct(p.Copy)
	if r.Intn(5) == 0 || p.Trace > 50 && r.Intn(2) == 0 {
		c.Warm = 1 + r.Intn(6)
	}
	if g.pct(p.Ctx) {
		c.Ctx = g.pick("live", "live", "live", "live", "dead", "late")
	}
	if g.pct(p.Cache) {
		c.CacheLen = g.r.Intn(3) * 20
	}
	if r.Intn(10) == 0 {
		c.Pad = []int{100, 300, 600, 1100, 2500, -100, -600, -1100}[r.Intn(8)]
	}
	c.NoMeta = world == nil && r.Intn(12) == 0
	c.Style = 1
	if g.pct(p.Style) {
		c.Style = g.pick2(0, 2, 2)
	}
	if g.pct(p.Values) {
		if r.Intn(2) == 0 {
			c.Values.K1 = g.pick("x", "x", "nil")
		}
		if r.Intn(3) > 0 {
			c.Values.K2 = g.pick("y", "z", "nil")
		}
	}
	if len(g.vars) > 0 && len(c.SVars) == 0 && r.Intn(8) == 0 {
		for i := range c.Ops {
			for j := range c.Ops[i].Vars {
				c.Ops[i].Vars[j].Given = "bad"
			}
		}
		c.BadVars = g.pick("[]", "null", "1", `"v0"`, "{", `{"v0":}`, `{"v0":true`, `{"v0":true}}`, `[{"v0":true}]`, " ", "nope", `{v0:true}`)
	}
	return c
}

func (g *gen) pick2(xs ...int) int { return xs[g.r.Intn(len(xs))] }

// finish renders the document and prepares the case for the specification
func (c *Case) finish(r *rand.Rand) {
	c.VarsJSON = c.varsToJSON()
	c.Text = joinTokens(c.tokens(), c.Style, r)
	switch {
	case c.Pad > 0:
		c.Text = strings.Repeat(" ", c.Pad) + c.Text + "#" + strings.Repeat("e", c.Pad)
	case c.Pad < 0:
		c.Text = "#" + strings.Repeat("{", -c.Pad) + "\n" + c.Text + strings.Repeat("\n", -c.Pad)
	}
	c.flatten()
	c.stripSel()
}

// caseFromSpec completes a case that was built by spec/ExecGen
func caseFromSpec(raw []byte, r *rand.Rand) (*Case, error) {
	c := &Case{CacheLen: -1}
	if err := json.Unmarshal(raw, c); err != nil {
		return nil, err
	}
	for i := range c.World.Nodes {
		for k := range c.World.Nodes[i].Vals {
			if k == "zz" {
				delete(c.World.Nodes[i].Vals, k)
			}
		}
	}
	c.unflatten()
	for i := range c.Ops {
		// the short way of writing a query
		if op := &c.Ops[i]; op.Kind == "query" && op.Name == "" && len(op.Vars) == 0 && len(op.Dirs) == 0 && r.Intn(2) == 0 {
			op.Kind = ""
		}
	}
	c.Style = r.Intn(3)
	if r.Intn(4) == 0 {
		c.CacheLen = 0
	}
	c.Copy = r.Intn(8) == 0
	c.finish(r)
	return c, nil
}

// nearName is another name, or no name at all, that looks like one
func (g *gen) nearName(n string) string {
	return g.pick(n+"x", n+n, n+"\x00", n+" ", " "+n, "\x00"+n, n+"\x00q", n+strings.Repeat("_", 256), n+"{", "$"+n, "\""+n+"\"", n+"\n", n+"\u00e9")
}

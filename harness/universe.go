package main

// The fixed universe of Go types the executor specification (spec/Exec.tla,
// operators Fields/Impl) talks about.  What the resolvers and fields produce is
// not fixed: it comes from the World of each case.

import (
	"context"
	"encoding/json"
	"errors"
	"mime/multipart"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	y "github.com/mjarkk/yarql"
)

// Val is a value of the world (see spec/Exec.tla)
//
//	{k:"null"} {k:"leaf",s} {k:"node",n} {k:"rogue"} {k:"list",xs} {k:"res",v,err,act}
type Val struct {
	K   string `json:"k"`
	S   string `json:"s"`
	N   int    `json:"n"`
	Xs  []Val  `json:"xs"`
	V   *Val   `json:"v,omitempty"`
	Err string `json:"err"`
	Act string `json:"act"`
}

// MarshalJSON only writes what the kind of value has
func (v Val) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": v.K}
	switch v.K {
	case "leaf":
		m["s"] = v.S
	case "node":
		m["n"] = v.N
	case "list":
		m["xs"] = v.Xs
		if v.Xs == nil {
			m["xs"] = []Val{}
		}
	case "res":
		m["v"], m["err"], m["act"] = v.V, v.Err, v.Act
	}
	return json.Marshal(m)
}

type WNode struct {
	Ty   string         `json:"ty"`
	Vals map[string]Val `json:"vals"`
}

type World struct {
	Nodes []WNode `json:"nodes"`

	objs []interface{}        // node id-1 -> *Obj / *Alt / *Ren
	rec  *recorder            // of the running request
	recs map[string]*recorder // by goroutine, when several requests run at the same time
}

// recorder keeps what the resolvers of one request saw
type recorder struct {
	calls   []wcall
	reads   []reading
	hargs   []*hArgs
	cancel  context.CancelFunc
	orig    context.Context
	badCtx  []string
	overlap bool
	busy    bool
	gate    func()
}

func goroutineID() string {
	var b [40]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

func (w *World) r() *recorder {
	if w.recs != nil {
		return w.recs[goroutineID()]
	}
	return w.rec
}

// wcall is a resolver call. The path is kept as it was handed out and only decoded after all requests
type wcall struct {
	ty   string
	id   int
	f    string
	path []byte
}

func (w *recorder) callStrings() [][]string {
	res := [][]string{}
	for _, c := range w.calls {
		res = append(res, append([]string{c.ty, itoa(c.id), c.f}, pathStrings(c.path)...))
	}
	return res
}

// hArgs are the arguments of the resolver h, kept as they were received
type hArgs struct {
	S  string
	L  []string
	O  HObj
	Id string `gq:",ID"`
	P  *string
}

type HObj struct {
	S string
	L []HObj2
}
type HObj2 struct{ T string }

func (a *hArgs) strings() []string {
	if a == nil {
		return []string{}
	}
	res := []string{"S", a.S, "ID", a.Id, "OS", a.O.S}
	for _, x := range a.L {
		res = append(res, "L", x)
	}
	for _, x := range a.O.L {
		res = append(res, "OL", x.T)
	}
	if a.P != nil {
		res = append(res, "P", *a.P)
	}
	return res
}

func (w *recorder) argStrings() [][]string {
	res := [][]string{}
	for _, a := range w.hargs {
		res = append(res, a.strings())
	}
	return res
}

// key2 is the name of the second value: any text is a name
const key2 = ""

// reading is what GetValue and GetValueOk answered
type reading struct {
	K1 string `json:"k1"`
	K2 string `json:"k2"`
}

func (w *recorder) read(c *y.Ctx) {
	one := func(k string) string {
		v, ok := c.GetValueOk(k)
		if c.GetValue(k) != v {
			return "GetValue and GetValueOk differ"
		}
		if !ok {
			if v != nil {
				return "missing with a value"
			}
			return "-"
		}
		if v == nil {
			return "nil"
		}
		s, isStr := v.(string)
		if !isStr {
			return "not what was set"
		}
		return s
	}
	r := reading{one("k1"), one(key2)}
	if v, ok := c.GetValueOk("never set"); ok || v != nil {
		r.K1 = "a key that was never set is there"
	}
	w.reads = append(w.reads, r)
}

func (w *recorder) reset() {
	w.calls, w.reads, w.hargs, w.badCtx = nil, []reading{}, nil, []string{}
	w.cancel, w.orig, w.overlap, w.busy = nil, nil, false, false
}

func (w *World) val(id int, f string) Val { return w.Nodes[id-1].Vals[f] }

type base struct {
	W  *World
	Id int
}

type Nd interface {
	ResolveM(*y.Ctx) (string, error)
	ResolveMo(*y.Ctx) (*Obj, error)
}

type Obj struct {
	W   *World     `gq:"-"`
	Id  int        `gq:"-"`
	A   string     //
	N   int        //
	URL string     //
	T   string     `gq:"tagged"`
	P   *string    //
	Pp  **string   //
	Ls  []string   //
	Lp  []*string  //
	Lls [][]string //
	Op  *Obj
	Ol  []Obj
	Opl []*Obj
	Oll [][]Obj
	Olp *[]Obj
	X   Alt
	I   Nd
	Il  []Nd
	Ill [][]Nd
	Ip  *Nd
	Bo  bool
	Fl8 float64
	Uei uint8        `gq:"u8"`
	Idd int          `gq:"id,ID"`
	Lll [][][]string `gq:"l3"`
	Plp *[]*string
	Lpl []*[]string
	Ax  [2]Alt
	Aop [2]*Obj
	Ppo **Obj
	Lpp []**Obj
	Ipl []*Nd
	Fi  func(*y.Ctx) (Nd, error)
	Fg  func(gArgs, *y.Ctx) (int, error)
	EmbBase
	Nm  Nm
	Nml []Nm
	Bv  Bare
	Bq  *Bare
	Ec  Color
	Ecl []*Color
	Td  time.Time
	Tdl []*time.Time
	Ar  [2]string
	F   func(*y.Ctx) (string, error)
	Fo  func(*y.Ctx) (*Obj, error)
	Fl  func(*y.Ctx) ([]Obj, error)
}

// Nm asks for the same methods as Nd, but not everything that has them is registered for it
type Nm interface {
	ResolveM(*y.Ctx) (string, error)
	ResolveMo(*y.Ctx) (*Obj, error)
}

// Bare has no fields at all: what its resolvers do is kept by goroutine
type Bare struct{}

var bareWorlds sync.Map // goroutine id -> *World

func bareCall(c *y.Ctx, f string) (*World, Val, error) {
	x, ok := bareWorlds.Load(goroutineID())
	if !ok {
		panic("the resolver runs in another goroutine than the request")
	}
	w := x.(*World)
	v, err := w.call(c, "Bare", w.bare(), f)
	return w, v, err
}

// bare is the only node of this type
func (w *World) bare() int {
	for i, n := range w.Nodes {
		if n.Ty == "Bare" {
			return i + 1
		}
	}
	return 0
}

func (Bare) ResolveM(c *y.Ctx) (string, error) {
	_, v, err := bareCall(c, "m")
	return v.S, err
}
func (Bare) ResolveMo(c *y.Ctx) (*Obj, error) {
	w, v, err := bareCall(c, "mo")
	return w.toObjP(v), err
}
func (Bare) ResolveB(c *y.Ctx) (Bare, error) {
	_, _, err := bareCall(c, "b")
	return Bare{}, err
}
func (Bare) ResolveBp(c *y.Ctx) (*Bare, error) {
	_, v, err := bareCall(c, "bp")
	if v.K == "null" {
		return nil, err
	}
	return &Bare{}, err
}
func (Bare) ResolveBl(c *y.Ctx) ([]Bare, error) {
	_, v, err := bareCall(c, "bl")
	if v.K == "null" {
		return nil, err
	}
	return make([]Bare, len(v.Xs)), err
}

type Alt struct {
	W  *World `gq:"-"`
	Id int    `gq:"-"`
	A  string
	Z  string
	Op *Obj
	Il []Nd
}

type Ren struct {
	W  *World `gq:"-"`
	Id int    `gq:"-"`
	A  string
	R  string
	I  Nd
}

// Rogue implements Nd but is never registered
type Rogue struct{}

func (Rogue) ResolveM(*y.Ctx) (string, error) { return "rogue", nil }
func (Rogue) ResolveMo(*y.Ctx) (*Obj, error)  { return nil, nil }

// Q and M are the roots
type Q struct {
	W   *World     `gq:"-"`
	Id  int        `gq:"-"`
	A   string     //
	N   int        //
	URL string     //
	T   string     `gq:"tagged"`
	P   *string    //
	Pp  **string   //
	Ls  []string   //
	Lp  []*string  //
	Lls [][]string //
	Op  *Obj
	Ol  []Obj
	Opl []*Obj
	Oll [][]Obj
	Olp *[]Obj
	X   Alt
	I   Nd
	Il  []Nd
	Ill [][]Nd
	Ip  *Nd
	Bo  bool
	Fl8 float64
	Uei uint8        `gq:"u8"`
	Idd int          `gq:"id,ID"`
	Lll [][][]string `gq:"l3"`
	Plp *[]*string
	Lpl []*[]string
	Ax  [2]Alt
	Aop [2]*Obj
	Ppo **Obj
	Lpp []**Obj
	Ipl []*Nd
	Fi  func(*y.Ctx) (Nd, error)
	Fg  func(gArgs, *y.Ctx) (int, error)
	EmbBase
	Nm  Nm
	Nml []Nm
	Bv  Bare
	Bq  *Bare
	Ec  Color
	Ecl []*Color
	Td  time.Time
	Tdl []*time.Time
	Ar  [2]string
	F   func(*y.Ctx) (string, error)
	Fo  func(*y.Ctx) (*Obj, error)
	Fl  func(*y.Ctx) ([]Obj, error)
}

type M struct {
	W   *World `gq:"-"`
	Id  int    `gq:"-"`
	A   string
	Ls  []string
	Op  *Obj
	Ol  []Obj
	I   Nd
	Il  []Nd
	F   func(*y.Ctx) (string, error)
	Fo  func(*y.Ctx) (*Obj, error)
	Opl []*Obj
}

var _ = y.TypeRename(Ren{}, "Renamed")
var _ = y.Implements((*Nd)(nil), Obj{})
var _ = y.Implements((*Nd)(nil), Alt{})
var _ = y.Implements((*Nd)(nil), Ren{})
var _ = y.Implements((*Nm)(nil), Obj{})
var _ = y.Implements((*Nm)(nil), Ren{})
var _ = y.Implements((*Nd)(nil), Bare{})

// call is the single entry of all resolvers: it records the call and applies its side effect
func (w *World) call(c *y.Ctx, ty string, id int, f string) (Val, error) {
	r := w.r()
	if r.busy {
		r.overlap = true
	}
	r.busy = true
	defer func() { r.busy = false }()
	r.calls = append(r.calls, wcall{ty, id, f, c.GetPath()})
	r.read(c)
	res := w.val(id, f)
	got := "other"
	cc := c.GetContext()
	switch {
	case cc == nil:
		got = "none"
	case cc == r.orig:
		got = "orig"
	case cc == liveCtx:
		got = "live"
	case cc == deadCtx:
		got = "dead"
	case cc == lateCtx:
		got = "late"
	case cc == context.Context(oddCtx{context.Background()}):
		got = "odd"
	}
	r.badCtx = append(r.badCtx, got)
	if r.gate != nil {
		r.gate()
	}
	switch res.Act {
	case "cancel":
		if r.cancel != nil {
			r.cancel()
		}
	case "setlive":
		c.SetContext(liveCtx)
	case "setdead":
		c.SetContext(deadCtx)
	case "setnil":
		c.SetContext(nil)
	case "setlate":
		c.SetContext(lateCtx)
	case "setodd":
		c.SetContext(oddCtx{context.Background()})
	case "put1a":
		c.SetValue("k1", "a")
	case "put1b":
		c.SetValue("k1", "b")
	case "put2a":
		c.SetValue(key2, "a")
	case "put1nil":
		c.SetValue("k1", nil)
	case "put2nil":
		c.SetValue(key2, nil)
	case "panic":
		panic("resolver panic")
	}
	var err error
	if res.Err == "(empty)" {
		err = errors.New("")
	} else if res.Err != "" {
		err = errors.New(res.Err)
	}
	if res.V == nil {
		return Val{K: "null"}, err
	}
	return *res.V, err
}

type ctxKey struct{}

var liveCtx = context.WithValue(context.Background(), ctxKey{}, 1)
var deadCtx = func() context.Context {
	c, f := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 2))
	f()
	return c
}()

// lateCtx is after its deadline
var lateCtx = func() context.Context {
	c, f := context.WithDeadline(context.WithValue(context.Background(), ctxKey{}, 3), time.Unix(1, 0))
	f()
	return c
}()

// oddCtx has an error of its own
type oddCtx struct{ context.Context }

func (oddCtx) Err() error { return errors.New("odd \"end\"\n") }

func (w *World) toStr(v Val) string { return v.S }
func (w *World) toStrP(v Val) *string {
	if v.K == "null" {
		return nil
	}
	s := v.S
	return &s
}
func (w *World) toObjP(v Val) *Obj {
	if v.K == "null" {
		return nil
	}
	return w.objs[v.N-1].(*Obj)
}
func (w *World) toObjs(v Val) []Obj {
	if v.K == "null" {
		return nil
	}
	res := make([]Obj, 0, len(v.Xs))
	for _, x := range v.Xs {
		res = append(res, *w.toObjP(x))
	}
	return res
}
func (w *World) toObjPs(v Val) []*Obj {
	if v.K == "null" {
		return nil
	}
	res := make([]*Obj, 0, len(v.Xs))
	for _, x := range v.Xs {
		res = append(res, w.toObjP(x))
	}
	return res
}
func (w *World) toNd(v Val) Nd {
	switch v.K {
	case "null":
		return nil
	case "rogue":
		return Rogue{}
	case "rogueptr":
		return &Alt{}
	case "roguelocal":
		// another type that is named as one that is registered
		type Obj struct {
			Rogue
			A string
		}
		return Obj{A: "local"}
	case "roguelocal2":
		type Alt struct {
			Rogue
			W  *World
			Id int
			A  string
			Z  string
		}
		return Alt{A: "local"}
	}
	switch o := w.objs[v.N-1].(type) {
	case *Obj:
		return *o
	case *Alt:
		return *o
	case *Ren:
		return *o
	case *Bare:
		return *o
	}
	return nil
}
func (w *World) toNds(v Val) []Nd {
	if v.K == "null" {
		return nil
	}
	res := make([]Nd, 0, len(v.Xs))
	for _, x := range v.Xs {
		res = append(res, w.toNd(x))
	}
	return res
}

// EmbBase is embedded: only its methods are fields
type EmbBase struct {
	EW  *World
	EId int
	ETy string
}

func (e EmbBase) ResolveEmb(c *y.Ctx) (string, error) { return resStr(e.EW, c, e.ETy, e.EId, "emb") }

func resMll(w *World, c *y.Ctx, ty string, id int) ([][]*Obj, error) {
	v, err := w.call(c, ty, id, "mll")
	if v.K == "null" {
		return nil, err
	}
	res := [][]*Obj{}
	for _, x := range v.Xs {
		res = append(res, w.toObjPs(x))
	}
	return res, err
}
func resMpl(w *World, c *y.Ctx, ty string, id int) (*[]*Obj, error) {
	v, err := w.call(c, ty, id, "mpl")
	if v.K == "null" {
		return nil, err
	}
	res := w.toObjPs(v)
	return &res, err
}
func resMpo(w *World, c *y.Ctx, ty string, id int) (**Obj, error) {
	v, err := w.call(c, ty, id, "mpo")
	if v.K == "null" {
		return nil, err
	}
	res := w.toObjP(v)
	return &res, err
}
func (o Obj) ResolveMll(c *y.Ctx) ([][]*Obj, error) { return resMll(o.W, c, "Obj", o.Id) }
func (o Q) ResolveMll(c *y.Ctx) ([][]*Obj, error)   { return resMll(o.W, c, "Q", o.Id) }
func (o Obj) ResolveMpl(c *y.Ctx) (*[]*Obj, error)  { return resMpl(o.W, c, "Obj", o.Id) }
func (o Q) ResolveMpl(c *y.Ctx) (*[]*Obj, error)    { return resMpl(o.W, c, "Q", o.Id) }
func (o Obj) ResolveMpo(c *y.Ctx) (**Obj, error)    { return resMpo(o.W, c, "Obj", o.Id) }
func (o Q) ResolveMpo(c *y.Ctx) (**Obj, error)      { return resMpo(o.W, c, "Q", o.Id) }

// generic resolvers
func resStr(w *World, c *y.Ctx, ty string, id int, f string) (string, error) {
	v, err := w.call(c, ty, id, f)
	return v.S, err
}
func resObjP(w *World, c *y.Ctx, ty string, id int, f string) (*Obj, error) {
	v, err := w.call(c, ty, id, f)
	return w.toObjP(v), err
}
func resObjs(w *World, c *y.Ctx, ty string, id int, f string) ([]Obj, error) {
	v, err := w.call(c, ty, id, f)
	return w.toObjs(v), err
}
func resNd(w *World, c *y.Ctx, ty string, id int, f string) (Nd, error) {
	v, err := w.call(c, ty, id, f)
	return w.toNd(v), err
}
func resNds(w *World, c *y.Ctx, ty string, id int, f string) ([]Nd, error) {
	v, err := w.call(c, ty, id, f)
	return w.toNds(v), err
}

type gArgs struct{ N int }

func (o Obj) ResolveM(c *y.Ctx) (string, error) { return resStr(o.W, c, "Obj", o.Id, "m") }
func (o Obj) ResolveMo(c *y.Ctx) (*Obj, error)  { return resObjP(o.W, c, "Obj", o.Id, "mo") }
func (o Obj) ResolveMl(c *y.Ctx) ([]Obj, error) { return resObjs(o.W, c, "Obj", o.Id, "ml") }
func (o Obj) ResolveMi(c *y.Ctx) (Nd, error)    { return resNd(o.W, c, "Obj", o.Id, "mi") }
func (o Obj) ResolveMil(c *y.Ctx) ([]Nd, error) { return resNds(o.W, c, "Obj", o.Id, "mil") }
func (o Obj) ResolveMe(c *y.Ctx) string         { s, _ := resStr(o.W, c, "Obj", o.Id, "me"); return s }
func (o Obj) ResolveG(c *y.Ctx, a gArgs) (int, error) {
	_, err := o.W.call(c, "Obj", o.Id, "g")
	return a.N, err
}
func (o Obj) ResolveGo(a struct{ N int }, c *y.Ctx) (*Obj, error) {
	return resObjP(o.W, c, "Obj", o.Id, "go")
}

// only asked for by requests that are compared with a new schema
type Color string

func (o Q) ResolveEn(a struct {
	E Color
	O *struct{ E []Color }
}) Color {
	return a.E
}

var colors = map[string]Color{"RED": "r", "GREEN": "g", "BLUE_2": "b"}

func toColor(v Val) Color {
	if c, ok := colors[v.S]; ok {
		return c
	}
	return "of no member"
}

func toTime(v Val) time.Time {
	t, err := time.Parse(time.RFC3339, v.S)
	must(err)
	return t
}

func resEc(w *World, c *y.Ctx, ty string, id int) (Color, error) {
	v, err := w.call(c, ty, id, "mec")
	return toColor(v), err
}
func resTd(w *World, c *y.Ctx, ty string, id int) (*time.Time, error) {
	v, err := w.call(c, ty, id, "mtd")
	if v.K == "null" {
		return nil, err
	}
	t := toTime(v)
	return &t, err
}
func (o Obj) ResolveMec(c *y.Ctx) (Color, error)      { return resEc(o.W, c, "Obj", o.Id) }
func (o Q) ResolveMec(c *y.Ctx) (Color, error)        { return resEc(o.W, c, "Q", o.Id) }
func (o Obj) ResolveMtd(c *y.Ctx) (*time.Time, error) { return resTd(o.W, c, "Obj", o.Id) }
func (o Q) ResolveMtd(c *y.Ctx) (*time.Time, error)   { return resTd(o.W, c, "Q", o.Id) }

// ResolveUpf is only used by the histories of requests
func (o Q) ResolveUpf(a struct {
	F, G *multipart.FileHeader
	L    []*multipart.FileHeader
}) []string {
	res := []string{}
	for _, f := range append([]*multipart.FileHeader{a.F, a.G}, a.L...) {
		if f == nil {
			res = append(res, "-")
		} else {
			res = append(res, f.Filename)
		}
	}
	return res
}

func (o Q) ResolveTm(a struct{ T time.Time }) *time.Time { return &a.T }

func (o Obj) ResolveH(c *y.Ctx, a hArgs) (string, error) { return resH(o.W, c, "Obj", o.Id, a) }
func (o Q) ResolveH(a hArgs, c *y.Ctx) (string, error)   { return resH(o.W, c, "Q", o.Id, a) }
func resH(w *World, c *y.Ctx, ty string, id int, a hArgs) (string, error) {
	r := w.r()
	r.hargs = append(r.hargs, &a)
	return resStr(w, c, ty, id, "h")
}

func (o Q) ResolveM(c *y.Ctx) (string, error) { return resStr(o.W, c, "Q", o.Id, "m") }
func (o Q) ResolveMo(c *y.Ctx) (*Obj, error)  { return resObjP(o.W, c, "Q", o.Id, "mo") }
func (o Q) ResolveMl(c *y.Ctx) ([]Obj, error) { return resObjs(o.W, c, "Q", o.Id, "ml") }
func (o Q) ResolveMi(c *y.Ctx) (Nd, error)    { return resNd(o.W, c, "Q", o.Id, "mi") }
func (o Obj) ResolveMnm(c *y.Ctx) (Nm, error) {
	x, err := resNd(o.W, c, "Obj", o.Id, "mnm")
	return x, err
}
func (o Q) ResolveMnm(c *y.Ctx) (Nm, error) {
	x, err := resNd(o.W, c, "Q", o.Id, "mnm")
	return x, err
}
func (o Q) ResolveMil(c *y.Ctx) ([]Nd, error) { return resNds(o.W, c, "Q", o.Id, "mil") }
func (o Q) ResolveMe(c *y.Ctx) string         { s, _ := resStr(o.W, c, "Q", o.Id, "me"); return s }
func (o Q) ResolveG(c *y.Ctx, a gArgs) (int, error) {
	_, err := o.W.call(c, "Q", o.Id, "g")
	return a.N, err
}
func (o Q) ResolveGo(a struct{ N int }, c *y.Ctx) (*Obj, error) {
	return resObjP(o.W, c, "Q", o.Id, "go")
}

func (o M) ResolveM(c *y.Ctx) (string, error) { return resStr(o.W, c, "M", o.Id, "m") }
func (o M) ResolveMo(c *y.Ctx) (*Obj, error)  { return resObjP(o.W, c, "M", o.Id, "mo") }
func (o M) ResolveMl(c *y.Ctx) ([]Obj, error) { return resObjs(o.W, c, "M", o.Id, "ml") }
func (o M) ResolveMi(c *y.Ctx) (Nd, error)    { return resNd(o.W, c, "M", o.Id, "mi") }
func (o M) ResolveG(c *y.Ctx, a gArgs) (int, error) {
	_, err := o.W.call(c, "M", o.Id, "g")
	return a.N, err
}

func (o Alt) ResolveM(c *y.Ctx) (string, error) { return resStr(o.W, c, "Alt", o.Id, "m") }
func (o Alt) ResolveMo(c *y.Ctx) (*Obj, error)  { return resObjP(o.W, c, "Alt", o.Id, "mo") }
func (o Ren) ResolveM(c *y.Ctx) (string, error) { return resStr(o.W, c, "Renamed", o.Id, "m") }
func (o Ren) ResolveMo(c *y.Ctx) (*Obj, error)  { return resObjP(o.W, c, "Renamed", o.Id, "mo") }
func (o Ren) ResolveMl(c *y.Ctx) ([]Obj, error) { return resObjs(o.W, c, "Renamed", o.Id, "ml") }

// build creates the Go objects of the world. Values held by value may only refer to later nodes.
func (w *World) build() (Q, M) {
	w.objs = make([]interface{}, len(w.Nodes))
	for i, n := range w.Nodes {
		switch n.Ty {
		case "Obj":
			w.objs[i] = &Obj{}
		case "Alt":
			w.objs[i] = &Alt{}
		case "Renamed":
			w.objs[i] = &Ren{}
		case "Bare":
			w.objs[i] = &Bare{}
		case "Q":
			w.objs[i] = &Q{}
		case "M":
			w.objs[i] = &M{}
		}
	}
	for i := len(w.Nodes) - 1; i >= 0; i-- {
		w.fill(reflect.ValueOf(w.objs[i]).Elem(), i+1)
	}
	return *w.objs[0].(*Q), *w.objs[1].(*M)
}

var fieldOf = map[string]string{
	"a": "A", "n": "N", "URL": "URL", "tagged": "T", "p": "P", "pp": "Pp", "ls": "Ls", "lp": "Lp", "lls": "Lls", "op": "Op",
	"ol": "Ol", "opl": "Opl", "oll": "Oll", "olp": "Olp", "bo": "Bo", "fl8": "Fl8", "u8": "Uei", "id": "Idd", "l3": "Lll", "plp": "Plp", "lpl": "Lpl", "ax": "Ax", "aop": "Aop", "ppo": "Ppo", "lpp": "Lpp",
	"ipl": "Ipl", "fi": "Fi", "fg": "Fg", "x": "X", "nm": "Nm", "nml": "Nml", "bv": "Bv", "bq": "Bq", "i": "I", "il": "Il", "ill": "Ill", "ip": "Ip",
	"ec": "Ec", "ecl": "Ecl", "td": "Td", "tdl": "Tdl", "ar": "Ar",
	"f": "F", "fo": "Fo", "fl": "Fl", "z": "Z", "r": "R",
}

func (w *World) funcFor(ty string, id int, f string) reflect.Value {
	switch f {
	case "f":
		return reflect.ValueOf(func(c *y.Ctx) (string, error) { return resStr(w, c, ty, id, f) })
	case "fo":
		return reflect.ValueOf(func(c *y.Ctx) (*Obj, error) { return resObjP(w, c, ty, id, f) })
	case "fl":
		return reflect.ValueOf(func(c *y.Ctx) ([]Obj, error) { return resObjs(w, c, ty, id, f) })
	case "fi":
		return reflect.ValueOf(func(c *y.Ctx) (Nd, error) { return resNd(w, c, ty, id, f) })
	case "fg":
		return reflect.ValueOf(func(a gArgs, c *y.Ctx) (int, error) {
			_, err := w.call(c, ty, id, f)
			return a.N, err
		})
	}
	panic("harness: function " + f)
}

func (w *World) fill(o reflect.Value, id int) {
	n := w.Nodes[id-1]
	if n.Ty == "Bare" {
		return
	}
	o.FieldByName("W").Set(reflect.ValueOf(w))
	o.FieldByName("Id").SetInt(int64(id))
	if e := o.FieldByName("EmbBase"); e.IsValid() {
		e.Set(reflect.ValueOf(EmbBase{w, id, n.Ty}))
	}
	for f, v := range n.Vals {
		goName, ok := fieldOf[f]
		if !ok {
			continue
		}
		fv := o.FieldByName(goName)
		if !fv.IsValid() {
			continue
		}
		if fv.Kind() == reflect.Func {
			if v.K == "null" {
				continue
			}
			fv.Set(w.funcFor(n.Ty, id, f))
			continue
		}
		w.set(fv, v)
	}
}

var ndType = reflect.TypeOf((*Nd)(nil)).Elem()

func (w *World) set(fv reflect.Value, v Val) {
	if v.K == "null" {
		return
	}
	if fv.Type() == reflect.TypeOf(Color("")) {
		fv.SetString(string(toColor(v)))
		return
	}
	if fv.Type() == reflect.TypeOf(time.Time{}) {
		fv.Set(reflect.ValueOf(toTime(v)))
		return
	}
	switch fv.Kind() {
	case reflect.Array:
		for i, x := range v.Xs {
			w.set(fv.Index(i), x)
		}
	case reflect.String:
		fv.SetString(v.S)
	case reflect.Int:
		i, _ := atoi(v.S)
		fv.SetInt(int64(i))
	case reflect.Uint8:
		i, _ := atoi(v.S)
		fv.SetUint(uint64(i))
	case reflect.Bool:
		fv.SetBool(v.S == "true")
	case reflect.Float64:
		x, err := strconv.ParseFloat(v.S, 64)
		must(err)
		fv.SetFloat(x)
	case reflect.Ptr:
		if v.K == "node" && fv.Type().Elem().Kind() == reflect.Struct {
			fv.Set(reflect.ValueOf(w.objs[v.N-1]))
			return
		}
		e := reflect.New(fv.Type().Elem())
		w.set(e.Elem(), v)
		fv.Set(e)
	case reflect.Slice:
		s := reflect.MakeSlice(fv.Type(), len(v.Xs), len(v.Xs))
		for i, x := range v.Xs {
			w.set(s.Index(i), x)
		}
		fv.Set(s)
	case reflect.Struct:
		fv.Set(reflect.ValueOf(w.objs[v.N-1]).Elem())
	case reflect.Interface:
		nd := w.toNd(v)
		if nd != nil {
			fv.Set(reflect.ValueOf(nd))
		}
	}
}

// pathStrings turns ["a",0,"b"] into the strings a #0 b
func pathStrings(raw []byte) []string {
	var xs []interface{}
	if err := json.Unmarshal(raw, &xs); err != nil {
		return []string{"!invalid path " + string(raw)}
	}
	res := []string{}
	for _, x := range xs {
		switch t := x.(type) {
		case string:
			res = append(res, t)
		case float64:
			res = append(res, "#"+itoa(int(t)))
		}
	}
	return res
}

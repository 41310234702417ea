// Package pa has the types that set up calls are made with
package pa

import (
	"github.com/mjarkk/yarql"
	"verif/harness/api/pb"
	"verif/harness/api/pc"
)

type (
	A            string
	B            int8
	C            uint64
	fruit        string
	Low          = fruit
	__TypeKind   int
	Kind         = __TypeKind
	gen[T any]   int
	G            = gen[int]
	Fl           float64
	Bo           bool
	St           struct{ X string }
	Key          string
	Modifier     yarql.DirectiveModifier
	T            struct{ X string }
	In           struct{ X string }
	If           interface{ ResolveX() string }
	ImplA        struct{ X string }
	Other        interface{ ResolveOther() string }
	__Type       struct{ X string }
	Meta         = __Type
	__Field      interface{ ResolveX() string }
	MetaIf       = __Field
	ImplM        struct{ X string }
	__InputValue struct{ X string }
	MetaIn       = __InputValue
	Deep         struct {
		X []*struct{ Y map[string]int }
	}
)

func (ImplA) ResolveX() string { return "x" }
func (ImplM) ResolveX() string { return "x" }

var _ = yarql.Implements((*If)(nil), ImplA{})
var _ = yarql.Implements((*MetaIf)(nil), ImplM{})

// QUse uses all types of members
type QUse struct {
	F     string
	VA1   A
	VA2   A
	VA21  pb.A
	VA22  pb.A
	VB1   B
	VB2   B
	VC1   C
	VC2   C
	VLow1 Low
	VLow2 Low
}

func NewQUse() QUse { return QUse{"f", "v1", "v2", 1, 2, 1, 2, 1, 2, "v1", "v2"} }

func (QUse) ResolveGA(a struct{ V A }) A        { return a.V }
func (QUse) ResolveGA2(a struct{ V pb.A }) pb.A { return a.V }
func (QUse) ResolveGB(a struct{ V B }) B        { return a.V }
func (QUse) ResolveGC(a struct{ V C }) C        { return a.V }
func (QUse) ResolveGLow(a struct{ V Low }) Low  { return a.V }

type (
	M0     struct{}
	QNone  struct{}
	QBad   struct{ X chan int }
	QBadIn struct {
		F func(struct{ X chan int }) string
	}
	MBad     struct{ X complex64 }
	QDeepBad struct {
		A string
		D []*Deep
		B string
	}
	QObjs struct {
		A T
		B pb.T
	}
	QIns struct {
		F func(struct {
			A In
			B *pb.In
		}) string
	}
	QIfs struct {
		A If
		B []pb.If
	}
	QObjIn struct {
		A *T
		F func(struct{ A pb.T }) string
	}
	QObjIf struct {
		A If
		B pc.If
	}
	QEnumObj  struct{ A pb.B }
	QEnumIn   struct{ F func(struct{ A pb.C }) string }
	QScalar   struct{ A pb.ID }
	QScalarIn struct {
		F func(struct{ A pb.Int }) string
	}
	QMeta   struct{ A Meta }
	QMetaIf struct{ A MetaIf }
	QMetaIn struct {
		F func(struct{ A MetaIn }) string
	}
	MT struct{ A pb.T }
)

var Roots = map[string]interface{}{
	"nil": nil, "int": 1, "ptr": &M0{}, "nilptr": (*QNone)(nil), "slice": []M0{}, "func": func() string { return "" }, "map": map[string]string{}, "string": "x",
	"QUse": NewQUse(), "M0": M0{}, "QNone": QNone{}, "QBad": QBad{}, "QBadIn": QBadIn{}, "MBad": MBad{}, "QDeepBad": QDeepBad{}, "QObjs": QObjs{}, "QIns": QIns{}, "QIfs": QIfs{},
	"QObjIn": QObjIn{}, "QObjIf": QObjIf{}, "QEnumObj": QEnumObj{}, "QEnumIn": QEnumIn{}, "QScalar": QScalar{}, "QScalarIn": QScalarIn{}, "QMeta": QMeta{}, "QMetaIf": QMetaIf{}, "QMetaIn": QMetaIn{},
	"MT": MT{}, "MQ": pb.QUse{},
}

type on struct{ On bool }

var Methods = map[string]interface{}{
	"skip": func() yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: true} },
	"keep": func() yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
	"arg":  func(a struct{ On bool }) yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: a.On} },
	"ctx": func(c *yarql.Ctx) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{Skip: c != nil}
	},
	"ctxarg": func(c *yarql.Ctx, a on) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{Skip: c != nil && a.On}
	},
	"named":    func() (res yarql.DirectiveModifier) { return },
	"plain":    func(x int) yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
	"chan":     func(struct{ X chan int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
	"variadic": func(...struct{ X int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
	"map":      func(map[string]string) yarql.DirectiveModifier { return yarql.DirectiveModifier{} },
	"nil":      nil,
	"nilfunc":  (func() yarql.DirectiveModifier)(nil),
	"nonfunc":  "skip",
	"noout":    func() {},
	"twoout": func() (yarql.DirectiveModifier, yarql.DirectiveModifier) {
		return yarql.DirectiveModifier{}, yarql.DirectiveModifier{}
	},
	"wrongout": func() bool { return true },
	"ptrout":   func() *yarql.DirectiveModifier { return nil },
	"likeout":  func() Modifier { return Modifier{} },
	"errout":   func() (yarql.DirectiveModifier, error) { return yarql.DirectiveModifier{}, nil },
}

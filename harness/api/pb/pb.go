// Package pb has types with the names of types of pa or of the schema itself
package pb

import "github.com/mjarkk/yarql"

type (
	A      int
	B      struct{ X string }
	C      struct{ X string }
	String string
	ID     struct{ X string }
	Int    struct{ X string }
	T      struct{ X string }
	In     struct{ Y string }
	If     interface{ ResolveX() string }
	ImplB  struct{ X string }
	QUse   struct{ X string }
)

func (ImplB) ResolveX() string { return "x" }

var _ = yarql.Implements((*If)(nil), ImplB{})

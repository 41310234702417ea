// Package pc has an object type with the name of an interface of pa
package pc

type If struct{ X string }

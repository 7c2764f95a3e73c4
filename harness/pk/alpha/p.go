// Package alpha is a compiled uniform package (generated by tools/gen_pk.py).
package alpha

import "reflect"

// T0 is a comparable struct with methods.
type T0 struct{ X int }

// M0 is a value method.
func (T0) M0(a int) string { return "" }

// PM0 is a pointer method.
func (*T0) PM0(a ...string) {}

// T1 is numeric.
type T1 int

// M1 is a value method.
func (t T1) M1() T0 { return T0{} }

// S0 is not comparable.
type S0 []T0

// U is a struct that cannot be compared.
type U struct{ F func(T0) T1 }

// I0 is an interface.
type I0 interface{ MI0(a int) string }

// I1 embeds I0.
type I1 interface {
	I0
	MI1(...string)
}

// A0 is an alias.
type A0 = T0

// Ünï has a name outside ASCII.
type Ünï struct{}

// C0 and C1 are constants.
const (
	C0    = 1
	C1 T1 = 2
)

// V0 and V1 are variables.
var (
	V0 T0
	V1 []T0
)

// F0 and F1 are functions.
func F0(T0) error { return nil }

// F1 is variadic.
func F1(a ...T1) (x T0, err error) { return }

// Types lists the package's types for reflection.
func Types() map[string]reflect.Type {
	return map[string]reflect.Type{
		"T0": reflect.TypeOf(T0{}), "T1": reflect.TypeOf(T1(0)), "S0": reflect.TypeOf(S0{}), "U": reflect.TypeOf(U{}),
		"I0": reflect.TypeOf((*I0)(nil)).Elem(), "I1": reflect.TypeOf((*I1)(nil)).Elem(), "Ünï": reflect.TypeOf(Ünï{}),
	}
}

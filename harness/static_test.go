// Code generated by TestGenStatic. DO NOT EDIT.

package harness

import (
	"reflect"
	"unsafe"

	k0 "verif/harness/pk/alpha"
	k1 "verif/harness/pk/x/alpha"
	k2 "verif/harness/pk/y/alpha"
	k3 "verif/harness/pk/alpha1"
	k4 "verif/harness/pk/yaml.v2"
	k5 "verif/harness/pk/go-dash"
	k6 "verif/harness/pk/type"
	k7 "verif/harness/pk/9p"
	k8 "verif/harness/pk/v2"
	k9 "verif/harness/pk/string"
	k10 "verif/harness/pk/init"
)

var _ unsafe.Pointer

var _ k0.T0
var _ k1.T0
var _ k2.T0
var _ k3.T0
var _ k4.T0
var _ k5.T0
var _ k6.T0
var _ k7.T0
var _ k8.T0
var _ k9.T0
var _ k10.T0

type staticType struct {
	rt reflect.Type
	src string
}

var staticTypes = []staticType{
	{reflect.TypeOf((*interface{k3.I1; k10.I0; Do(chan []k1.A0, map[chan k0.U]interface{k0.I1; k0.I0; get(T0 float64) byte}) (b map[string]k1.I1, error k6.I1, r func(a int64) []byte); M101(*func(rune), k0.I0) (_ []int8)})(nil)).Elem(), "interface{k3.I1; k10.I0; Do(chan []k1.A0, map[chan k0.U]interface{k0.I1; k0.I0; get(T0 float64) byte}) (b map[string]k1.I1, error k6.I1, r func(a int64) []byte); M101(*func(rune), k0.I0) (_ []int8)}"},
	{reflect.TypeOf((*interface{k0.I0})(nil)).Elem(), "interface{k0.I0}"},
	{reflect.TypeOf((*interface{k0.I1; T0() func(k9.I0, map[k0.T0]complex64) (map[k2.I0]string, *complex128)})(nil)).Elem(), "interface{k0.I1; T0() func(k9.I0, map[k0.T0]complex64) (map[k2.I0]string, *complex128)}"},
	{reflect.TypeOf((*interface{})(nil)).Elem(), "interface{}"},
	{reflect.TypeOf((*struct{})(nil)).Elem(), "struct{}"},
	{reflect.TypeOf((*struct{A interface{Do() (k0.T0, <-chan uint16)}; Fld complex64 "a`b"; Ünä complex128 `é`})(nil)).Elem(), "struct{A interface{Do() (k0.T0, <-chan uint16)}; Fld complex64 \"a`b\"; Ünä complex128 `é`}"},
	{reflect.TypeOf((*interface{k3.I0; string(...interface{k2.I0; k0.I1; Get(); M102(int64, rune, k0.T1) (_ map[complex128]uint64, _ struct{}, func_ [1]string); Len() (k2.Ünï, []k0.T1, int)}) (ärg *int64, a map[struct{Fld k1.T1 `json:"a"`; k3.Ünï}][]k6.I1, b func(ctx interface{k1.I0; k7.I0; Do(func_ bool, T0 k0.T0); M101(bool, k0.T0, uint) (a k0.Ünï, error complex64)}, r k3.I1)); Len(_ k0.T1, _ interface{k3.I0; k6.I1}, x1 [9]bool) (_ func() (error map[k8.T0]uint, _ k0.T0, _ interface{k7.I1; k5.I1; get() int8; string(error bool)}))})(nil)).Elem(), "interface{k3.I0; string(...interface{k2.I0; k0.I1; Get(); M102(int64, rune, k0.T1) (_ map[complex128]uint64, _ struct{}, func_ [1]string); Len() (k2.Ünï, []k0.T1, int)}) (ärg *int64, a map[struct{Fld k1.T1 `json:\"a\"`; k3.Ünï}][]k6.I1, b func(ctx interface{k1.I0; k7.I0; Do(func_ bool, T0 k0.T0); M101(bool, k0.T0, uint) (a k0.Ünï, error complex64)}, r k3.I1)); Len(_ k0.T1, _ interface{k3.I0; k6.I1}, x1 [9]bool) (_ func() (error map[k8.T0]uint, _ k0.T0, _ interface{k7.I1; k5.I1; get() int8; string(error bool)}))}"},
	{reflect.TypeOf((*struct{String k0.I1; G952 k0.T1 `é`; Ünä interface{k1.I1; T0([5]bool, ...struct{Fld k3.U; B k0.T0}) <-chan float32}})(nil)).Elem(), "struct{String k0.I1; G952 k0.T1 `é`; Ünä interface{k1.I1; T0([5]bool, ...struct{Fld k3.U; B k0.T0}) <-chan float32}}"},
	{reflect.TypeOf((*interface{string() (*uint, k0.Ünï, *interface{Do(_ k1.T1, r int8, error k0.S0) (k0.I0, uint); Run(uint32, k0.T0) (k2.U, int64); M101() (error float32, alpha k3.T0)}); Do(a k0.I0) (x1 chan [3]k0.T1, _ [6]*int8)})(nil)).Elem(), "interface{string() (*uint, k0.Ünï, *interface{Do(_ k1.T1, r int8, error k0.S0) (k0.I0, uint); Run(uint32, k0.T0) (k2.U, int64); M101() (error float32, alpha k3.T0)}); Do(a k0.I0) (x1 chan [3]k0.T1, _ [6]*int8)}"},
	{reflect.TypeOf((*interface{k0.I0; k6.I1})(nil)).Elem(), "interface{k0.I0; k6.I1}"},
	{reflect.TypeOf((*interface{Get(ärg []func() k9.Ünï); Len(_ k0.U, a func([]k0.I1) (func_ map[uint16]k2.S0), x1 k5.S0)})(nil)).Elem(), "interface{Get(ärg []func() k9.Ünï); Len(_ k0.U, a func([]k0.I1) (func_ map[uint16]k2.S0), x1 k5.S0)}"},
	{reflect.TypeOf((*interface{Len(error [2]k0.T1) (func(*int), map[interface{Ümé(alpha uint16, error ...error) (_ uint32, func_ int, _ float64); Get() (k1.A0, bool, k10.A0)}]struct{X k1.A0 "a`b"; String complex64}, *complex128); M101(interface{k10.I1; k0.I1; do(r rune) (int16, int8, k9.S0)}, *[]k7.Ünï) (func_ []*k9.Ünï, b byte)})(nil)).Elem(), "interface{Len(error [2]k0.T1) (func(*int), map[interface{Ümé(alpha uint16, error ...error) (_ uint32, func_ int, _ float64); Get() (k1.A0, bool, k10.A0)}]struct{X k1.A0 \"a`b\"; String complex64}, *complex128); M101(interface{k10.I1; k0.I1; do(r rune) (int16, int8, k9.S0)}, *[]k7.Ünï) (func_ []*k9.Ünï, b byte)}"},
	{reflect.TypeOf((*interface{Get(*int8) (_ [][]int8, _ interface{k8.I0; string(...map[k2.T1]k5.A0)}, x1 func(r interface{Ümé(ctx ...k2.I0)}, ctx *int16, b []k2.I0) (p0 [7]k5.U, e k0.U, _ func(ctx float32) (float32, bool, int))); Do() (_ []k0.S0, b byte, _ *k1.T0); Len(*map[int8]k4.A0, k2.I1, ...**int8) (interface{Do(k0.T0, ...k3.I0) (string k0.I0, ctx interface{T0() (float32, k0.T0); Do(k1.A0, k7.I0)}, b float32)}, byte, <-chan interface{})})(nil)).Elem(), "interface{Get(*int8) (_ [][]int8, _ interface{k8.I0; string(...map[k2.T1]k5.A0)}, x1 func(r interface{Ümé(ctx ...k2.I0)}, ctx *int16, b []k2.I0) (p0 [7]k5.U, e k0.U, _ func(ctx float32) (float32, bool, int))); Do() (_ []k0.S0, b byte, _ *k1.T0); Len(*map[int8]k4.A0, k2.I1, ...**int8) (interface{Do(k0.T0, ...k3.I0) (string k0.I0, ctx interface{T0() (float32, k0.T0); Do(k1.A0, k7.I0)}, b float32)}, byte, <-chan interface{})}"},
	{reflect.TypeOf((*interface{Do(alpha *interface{k0.I1; Do(k0.T0) (T0 bool, b float64, r k7.S0)}, x1 <-chan [0]int) (error []*k1.S0, b []k6.A0, a <-chan int8)})(nil)).Elem(), "interface{Do(alpha *interface{k0.I1; Do(k0.T0) (T0 bool, b float64, r k7.S0)}, x1 <-chan [0]int) (error []*k1.S0, b []k6.A0, a <-chan int8)}"},
	{reflect.TypeOf((*interface{k2.I0; k6.I1; Do([]uint32) (x1 bool)})(nil)).Elem(), "interface{k2.I0; k6.I1; Do([]uint32) (x1 bool)}"},
	{reflect.TypeOf((*struct{a k1.A0; A string "\x1e,\xf9e\xc7\x00\xf9#"; B k8.I1 `q"uote`; string <-chan interface{error; Run(_ uint, b k0.T1) (_ int16); Do(k4.A0); do(k0.U)}})(nil)).Elem(), "struct{a k1.A0; A string \"\\x1e,\\xf9e\\xc7\\x00\\xf9#\"; B k8.I1 `q\"uote`; string <-chan interface{error; Run(_ uint, b k0.T1) (_ int16); Do(k4.A0); do(k0.U)}}"},
	{reflect.TypeOf((*struct{A k2.A0; B []k6.I0; G90 interface{k0.I1; Ümé(bool, ...int) (b k0.I0, _ struct{A k10.T0}, a chan<- int8)}})(nil)).Elem(), "struct{A k2.A0; B []k6.I0; G90 interface{k0.I1; Ümé(bool, ...int) (b k0.I0, _ struct{A k10.T0}, a chan<- int8)}}"},
	{reflect.TypeOf((*interface{k2.I0; k8.I0})(nil)).Elem(), "interface{k2.I0; k8.I0}"},
	{reflect.TypeOf((*interface{k10.I1; k0.I1; T0() (*uintptr, interface{Run(string [4]uint32, r []k9.U, int ...*unsafe.Pointer)}); get(struct{A *int; a []int `%s%d`; _ []uint64; Ünä int64}) interface{k0.I0; string(x1 *uint64, T0 uint16); Len(e ...uint16) *uint32; Get(alpha uint)}; Get(alpha float32) *interface{Get(bool, float32, float64) (b bool); Do(k7.I0, ...k10.T1); M101() k0.S0}})(nil)).Elem(), "interface{k10.I1; k0.I1; T0() (*uintptr, interface{Run(string [4]uint32, r []k9.U, int ...*unsafe.Pointer)}); get(struct{A *int; a []int `%s%d`; _ []uint64; Ünä int64}) interface{k0.I0; string(x1 *uint64, T0 uint16); Len(e ...uint16) *uint32; Get(alpha uint)}; Get(alpha float32) *interface{Get(bool, float32, float64) (b bool); Do(k7.I0, ...k10.T1); M101() k0.S0}}"},
	{reflect.TypeOf((*struct{*k0.S0})(nil)).Elem(), "struct{*k0.S0}"},
	{reflect.TypeOf((*interface{get(int8, ...int) (func(), *k0.A0, []k5.T1); Do(b int64) (interface{k5.I0; k0.I1; get(rune) (func_ []int, error *uint32)}, chan struct{A k0.T0}, chan<- []uint64); M101([]struct{Ünä uint64}, int)})(nil)).Elem(), "interface{get(int8, ...int) (func(), *k0.A0, []k5.T1); Do(b int64) (interface{k5.I0; k0.I1; get(rune) (func_ []int, error *uint32)}, chan struct{A k0.T0}, chan<- []uint64); M101([]struct{Ünä uint64}, int)}"},
	{reflect.TypeOf((*interface{k8.I1; Ümé(alpha *k1.T0, x1 float64, b [0][]k0.U) chan []k6.A0})(nil)).Elem(), "interface{k8.I1; Ümé(alpha *k1.T0, x1 float64, b [0][]k0.U) chan []k6.A0}"},
	{reflect.TypeOf((*interface{k0.I0; string() ([]interface{Len(bool, ...int) (k9.A0, rune, int)}, chan<- rune, map[chan k4.T0]k6.T0)})(nil)).Elem(), "interface{k0.I0; string() ([]interface{Len(bool, ...int) (k9.A0, rune, int)}, chan<- rune, map[chan k4.T0]k6.T0)}"},
	{reflect.TypeOf((*struct{X [3]struct{a bool; alpha int64 `ᾞゞ꤂`; *k0.Ünï `json:"a"`}; alpha uint64 `json:"a"`; C int16; A []k1.U})(nil)).Elem(), "struct{X [3]struct{a bool; alpha int64 `ᾞゞ꤂`; *k0.Ünï `json:\"a\"`}; alpha uint64 `json:\"a\"`; C int16; A []k1.U}"},
	{reflect.TypeOf((*struct{Ünä interface{Get(T0 k4.U) interface{k2.I0; k7.I0; get(ärg float32, e k1.A0, _ k0.I0)}; get(k1.U, func(T0 ...k0.T0) (uint16, int8)) interface{Len(int float64); Do()}}; B *bool "\x01"; C chan *k0.T1 "&\xce"; *k10.U})(nil)).Elem(), "struct{Ünä interface{Get(T0 k4.U) interface{k2.I0; k7.I0; get(ärg float32, e k1.A0, _ k0.I0)}; get(k1.U, func(T0 ...k0.T0) (uint16, int8)) interface{Len(int float64); Do()}}; B *bool \"\\x01\"; C chan *k0.T1 \"&\\xce\"; *k10.U}"},
	{reflect.TypeOf((*interface{k0.I1; k1.I0; T0(a int64, x1 interface{k10.I0; k8.I1}, _ func(bool, *string) (alpha interface{T0(_ k0.S0, a uint64)})); Do(_ func() (float64, map[int]k8.T1), ctx map[struct{Type bool `%s%d`}]float64, _ ...struct{k10.Ünï}) (ärg uint64); Ümé()})(nil)).Elem(), "interface{k0.I1; k1.I0; T0(a int64, x1 interface{k10.I0; k8.I1}, _ func(bool, *string) (alpha interface{T0(_ k0.S0, a uint64)})); Do(_ func() (float64, map[int]k8.T1), ctx map[struct{Type bool `%s%d`}]float64, _ ...struct{k10.Ünï}) (ärg uint64); Ümé()}"},
	{reflect.TypeOf((*interface{Len() ([4]<-chan k0.S0, bool, [411]map[int16]int64); Ümé(*k0.T0, uint) (r interface{get([3]k0.T1, interface{}, func() (rune, int8, uint64)) (_ struct{_ uint16; fld k1.T0 `%s%d`; B int64}, a map[complex128]int8)})})(nil)).Elem(), "interface{Len() ([4]<-chan k0.S0, bool, [411]map[int16]int64); Ümé(*k0.T0, uint) (r interface{get([3]k0.T1, interface{}, func() (rune, int8, uint64)) (_ struct{_ uint16; fld k1.T0 `%s%d`; B int64}, a map[complex128]int8)})}"},
	{reflect.TypeOf((*interface{T0(a k0.T0, ctx ...interface{do(); T0(interface{}); Get() (interface{k9.I0; k0.I1; Run(a uintptr, T0 ...uintptr) (error uint16, x1 int16)}, <-chan k0.T1)}) (_ uint16, alpha int64); do(b interface{k3.I0; do(x1 bool, e [6]k1.I1) [7]int64; Do() (x1 k0.I0, _ <-chan k2.I1)}) (a *[1]int8, error struct{B interface{k1.I0; Run() k0.T1} ` `}); Get()})(nil)).Elem(), "interface{T0(a k0.T0, ctx ...interface{do(); T0(interface{}); Get() (interface{k9.I0; k0.I1; Run(a uintptr, T0 ...uintptr) (error uint16, x1 int16)}, <-chan k0.T1)}) (_ uint16, alpha int64); do(b interface{k3.I0; do(x1 bool, e [6]k1.I1) [7]int64; Do() (x1 k0.I0, _ <-chan k2.I1)}) (a *[1]int8, error struct{B interface{k1.I0; Run() k0.T1} ` `}); Get()}"},
	{reflect.TypeOf((*struct{A struct{} `json:"a"`; C map[struct{alpha complex64}]rune; G514 string "\xf0$\x02\x05\xe4"; k8.I0})(nil)).Elem(), "struct{A struct{} `json:\"a\"`; C map[struct{alpha complex64}]rune; G514 string \"\\xf0$\\x02\\x05\\xe4\"; k8.I0}"},
	{reflect.TypeOf((*interface{k7.I0; Len(...*chan<- bool)})(nil)).Elem(), "interface{k7.I0; Len(...*chan<- bool)}"},
	{reflect.TypeOf((*interface{k9.I1; Ümé() (x1 interface{T0(*rune); do(b k0.U, ctx int, r ...[811]complex64) (string interface{k1.I0; Do(rune, k3.Ünï, k1.I1); get() k3.Ünï}, _ struct{a k2.T0 `%s%d`}, p0 k0.I0); Do(a int, string int8)}, _ interface{k1.I0; k6.I1; Do(interface{Do(e int8, b int) (r int8, T0 k3.I1); get() int16}); string(uint, map[string]k6.I1) (func(x1 uint, _ k0.T1) (r float32, int bool, ctx k0.S0), bool, []k1.U)})})(nil)).Elem(), "interface{k9.I1; Ümé() (x1 interface{T0(*rune); do(b k0.U, ctx int, r ...[811]complex64) (string interface{k1.I0; Do(rune, k3.Ünï, k1.I1); get() k3.Ünï}, _ struct{a k2.T0 `%s%d`}, p0 k0.I0); Do(a int, string int8)}, _ interface{k1.I0; k6.I1; Do(interface{Do(e int8, b int) (r int8, T0 k3.I1); get() int16}); string(uint, map[string]k6.I1) (func(x1 uint, _ k0.T1) (r float32, int bool, ctx k0.S0), bool, []k1.U)})}"},
	{reflect.TypeOf((*interface{k9.I1; k3.I0; Do()})(nil)).Elem(), "interface{k9.I1; k3.I0; Do()}"},
	{reflect.TypeOf((*struct{_ k0.S0})(nil)).Elem(), "struct{_ k0.S0}"},
	{reflect.TypeOf((*interface{Do()})(nil)).Elem(), "interface{Do()}"},
	{reflect.TypeOf((*struct{a k0.Ünï ` `})(nil)).Elem(), "struct{a k0.Ünï ` `}"},
	{reflect.TypeOf((*interface{Run(error int8, ärg chan (<-chan bool)) (T0 chan func(k0.T1) complex128, e chan interface{k8.I0; k0.I0; Run(k0.T1, int, k4.U) (func_ k0.T1); get(alpha ...k0.S0) k0.T0; string(a uint32, _ k4.I1, _ k0.I1) (T0 k1.I1, func_ int, ctx int16)})})(nil)).Elem(), "interface{Run(error int8, ärg chan (<-chan bool)) (T0 chan func(k0.T1) complex128, e chan interface{k8.I0; k0.I0; Run(k0.T1, int, k4.U) (func_ k0.T1); get(alpha ...k0.S0) k0.T0; string(a uint32, _ k4.I1, _ k0.I1) (T0 k1.I1, func_ int, ctx int16)})}"},
	{reflect.TypeOf((*interface{T0() []*int8})(nil)).Elem(), "interface{T0() []*int8}"},
	{reflect.TypeOf((*interface{Do(_ *k0.T0); T0() (_ interface{string(alpha *k5.Ünï, a ...k8.S0); Get() (T0 k9.S0)}, r struct{fld k1.Ünï "a`b"; Fld uint32}); get([3]k0.T0, *[4]k2.A0) **bool})(nil)).Elem(), "interface{Do(_ *k0.T0); T0() (_ interface{string(alpha *k5.Ünï, a ...k8.S0); Get() (T0 k9.S0)}, r struct{fld k1.Ünï \"a`b\"; Fld uint32}); get([3]k0.T0, *[4]k2.A0) **bool}"},
	{reflect.TypeOf((*interface{Do(a *error); get(x1 map[interface{Ümé() (alpha int16, ctx k0.I1, b float32)}]chan<- complex128, error *k5.I0) [5]chan<- k9.T0; Ümé() chan struct{fld k9.T1}})(nil)).Elem(), "interface{Do(a *error); get(x1 map[interface{Ümé() (alpha int16, ctx k0.I1, b float32)}]chan<- complex128, error *k5.I0) [5]chan<- k9.T0; Ümé() chan struct{fld k9.T1}}"},
	{reflect.TypeOf((*interface{k1.I1; Len(r []func(r k3.I1)) [0][9]int8; string([9]int8) func(e *int8) (ctx *bool, ärg struct{Type string "\xdd"; int uint}, error struct{k5.S0; _ uintptr; A k0.U `%s%d`; Type uint32})})(nil)).Elem(), "interface{k1.I1; Len(r []func(r k3.I1)) [0][9]int8; string([9]int8) func(e *int8) (ctx *bool, ärg struct{Type string \"\\xdd\"; int uint}, error struct{k5.S0; _ uintptr; A k0.U `%s%d`; Type uint32})}"},
	{reflect.TypeOf((*interface{Run() (ctx k5.I1, error complex64, p0 struct{C interface{}})})(nil)).Elem(), "interface{Run() (ctx k5.I1, error complex64, p0 struct{C interface{}})}"},
	{reflect.TypeOf((*interface{k1.I1; k1.I0; do(int string, string ...interface{Do(_ k0.T0, alpha map[k0.T1]float64, ärg struct{X uint64 `é`}) (ctx k0.S0, T0 chan<- uint, b []k6.T1)}); Len() map[int16]float64; get(*func(a k2.T0)) (_ <-chan interface{Len() (x1 k0.A0)}, alpha *interface{k10.I0; Do(_ k4.T0, int k2.S0, r k9.U); Ümé()}, _ [7]*k0.T1)})(nil)).Elem(), "interface{k1.I1; k1.I0; do(int string, string ...interface{Do(_ k0.T0, alpha map[k0.T1]float64, ärg struct{X uint64 `é`}) (ctx k0.S0, T0 chan<- uint, b []k6.T1)}); Len() map[int16]float64; get(*func(a k2.T0)) (_ <-chan interface{Len() (x1 k0.A0)}, alpha *interface{k10.I0; Do(_ k4.T0, int k2.S0, r k9.U); Ümé()}, _ [7]*k0.T1)}"},
	{reflect.TypeOf((*interface{T0(error bool, _ bool)})(nil)).Elem(), "interface{T0(error bool, _ bool)}"},
	{reflect.TypeOf((*interface{get()})(nil)).Elem(), "interface{get()}"},
	{reflect.TypeOf((*interface{Get(*k0.U, map[[9]k0.T0]struct{X uint}) (int, [4]int16); T0(r *func() (error k1.I0), alpha float64, p0 ...interface{}) (func_ k6.U, ctx rune, string func(b int16, _ k0.T0, _ *complex64) (x1 []uint, _ interface{}, _ [23]k0.S0))})(nil)).Elem(), "interface{Get(*k0.U, map[[9]k0.T0]struct{X uint}) (int, [4]int16); T0(r *func() (error k1.I0), alpha float64, p0 ...interface{}) (func_ k6.U, ctx rune, string func(b int16, _ k0.T0, _ *complex64) (x1 []uint, _ interface{}, _ [23]k0.S0))}"},
	{reflect.TypeOf((*interface{T0(error map[*k3.Ünï]interface{Ümé(a uintptr, _ bool) (T0 k2.I0, p0 rune, _ bool)}); do() (_ *interface{do() (int complex64); Run() complex128}); M101() (_ interface{Len() (alpha [1]uint64, func_ struct{A k0.T0; B k1.T1}, e k0.T0)}, T0 [][]uint32, _ map[chan<- uint64]struct{a k10.U; G664 int16; B k0.Ünï})})(nil)).Elem(), "interface{T0(error map[*k3.Ünï]interface{Ümé(a uintptr, _ bool) (T0 k2.I0, p0 rune, _ bool)}); do() (_ *interface{do() (int complex64); Run() complex128}); M101() (_ interface{Len() (alpha [1]uint64, func_ struct{A k0.T0; B k1.T1}, e k0.T0)}, T0 [][]uint32, _ map[chan<- uint64]struct{a k10.U; G664 int16; B k0.Ünï})}"},
	{reflect.TypeOf((*interface{Do(ctx interface{Run(uint64, ...struct{X k7.S0; G2 k0.A0 `q"uote`; Type complex64}) (_ k0.I0, T0 k2.T0, a complex128); T0(int int, T0 interface{T0(_ int, b int8, p0 k0.Ünï) (k4.I0, k0.T0); Do(...k0.T0) (_ k0.T0)}, p0 *complex128); Len(k0.T1, bool) (map[k0.T1]unsafe.Pointer, interface{}, chan complex128)}); Len(*map[int]k2.I0) interface{k4.I1; Ümé(e struct{}, func_ k9.A0, _ uint) (p0 k0.I1, ctx struct{String bool; fld int; Ünä rune; string uint64})}; T0(a struct{X rune; G17 [0]int8; A struct{X k0.T1}; G3 struct{C k0.T0; A k0.T0; a k0.U; G6 int64} `json:"a"`}, func_ rune) (ärg chan uintptr)})(nil)).Elem(), "interface{Do(ctx interface{Run(uint64, ...struct{X k7.S0; G2 k0.A0 `q\"uote`; Type complex64}) (_ k0.I0, T0 k2.T0, a complex128); T0(int int, T0 interface{T0(_ int, b int8, p0 k0.Ünï) (k4.I0, k0.T0); Do(...k0.T0) (_ k0.T0)}, p0 *complex128); Len(k0.T1, bool) (map[k0.T1]unsafe.Pointer, interface{}, chan complex128)}); Len(*map[int]k2.I0) interface{k4.I1; Ümé(e struct{}, func_ k9.A0, _ uint) (p0 k0.I1, ctx struct{String bool; fld int; Ünä rune; string uint64})}; T0(a struct{X rune; G17 [0]int8; A struct{X k0.T1}; G3 struct{C k0.T0; A k0.T0; a k0.U; G6 int64} `json:\"a\"`}, func_ rune) (ärg chan uintptr)}"},
	{reflect.TypeOf((*interface{k10.I0; k8.I1; Ümé([]string, k0.U, interface{Run(_ uintptr, ctx [0]k3.I0, _ int8) bool}) (ctx k3.U, string func(x1 interface{k8.I0; Run(x1 complex128, func_ byte, _ k1.T1) (ctx complex128, a k4.A0, ärg k8.Ünï)}), _ int64); Run() (T0 []k2.I0); Len(string uintptr) (k2.S0, func() [8]bool, int8)})(nil)).Elem(), "interface{k10.I0; k8.I1; Ümé([]string, k0.U, interface{Run(_ uintptr, ctx [0]k3.I0, _ int8) bool}) (ctx k3.U, string func(x1 interface{k8.I0; Run(x1 complex128, func_ byte, _ k1.T1) (ctx complex128, a k4.A0, ärg k8.Ünï)}), _ int64); Run() (T0 []k2.I0); Len(string uintptr) (k2.S0, func() [8]bool, int8)}"},
	{reflect.TypeOf((*interface{k8.I1; Do(*interface{Do(k0.T0, uint64) (a float64, _ uint); Ümé(e ...k1.T0) uint64; Get(k10.U) int}) (e [0]func(k2.T0, k0.T1, ...uint), a int8)})(nil)).Elem(), "interface{k8.I1; Do(*interface{Do(k0.T0, uint64) (a float64, _ uint); Ümé(e ...k1.T0) uint64; Get(k10.U) int}) (e [0]func(k2.T0, k0.T1, ...uint), a int8)}"},
	{reflect.TypeOf((*interface{k8.I1; k8.I0; Do(func(a k1.T0, error map[k0.I1]uint) (ctx map[k1.T0]int8)) (ärg struct{A k0.T0; ö interface{k0.I0; Do(k7.A0) (b k0.I0); string()}}, x1 [6]*k0.U)})(nil)).Elem(), "interface{k8.I1; k8.I0; Do(func(a k1.T0, error map[k0.I1]uint) (ctx map[k1.T0]int8)) (ärg struct{A k0.T0; ö interface{k0.I0; Do(k7.A0) (b k0.I0); string()}}, x1 [6]*k0.U)}"},
	{reflect.TypeOf((*interface{error; k6.I0; Len(struct{C uint16}, []k0.I0, ...byte); Get(interface{Run(r []k2.S0, a ...bool); Get([]uintptr, float64) (func_ complex64); M101() map[k1.I0]k3.T1}, []func() complex128)})(nil)).Elem(), "interface{error; k6.I0; Len(struct{C uint16}, []k0.I0, ...byte); Get(interface{Run(r []k2.S0, a ...bool); Get([]uintptr, float64) (func_ complex64); M101() map[k1.I0]k3.T1}, []func() complex128)}"},
	{reflect.TypeOf((*interface{Get() (b struct{}, _ **k3.Ünï)})(nil)).Elem(), "interface{Get() (b struct{}, _ **k3.Ünï)}"},
	{reflect.TypeOf((*interface{k0.I0; Do(map[uint16]*bool) (_ struct{}, x1 *interface{k0.I1; k0.I0; string(ctx bool, int ...rune) (a int, ärg int8); Get(ctx byte, T0 byte) (p0 uint32, int int); M101(k1.I1, int8, int)}, a chan<- complex128)})(nil)).Elem(), "interface{k0.I0; Do(map[uint16]*bool) (_ struct{}, x1 *interface{k0.I1; k0.I0; string(ctx bool, int ...rune) (a int, ärg int8); Get(ctx byte, T0 byte) (p0 uint32, int int); M101(k1.I1, int8, int)}, a chan<- complex128)}"},
	{reflect.TypeOf((*interface{k0.I0; Get(string []<-chan k0.T0, x1 ...chan<- uint16) (alpha map[complex64][1]int16, _ k1.I1, _ [5][5]bool); do(struct{B float64 "\xc1"; string []complex64 "\x87"}) [2]func(k0.T0, complex128) (k0.T1, uint64, uint64); M101(_ []chan uint64, alpha k5.T0, _ <-chan uint16)})(nil)).Elem(), "interface{k0.I0; Get(string []<-chan k0.T0, x1 ...chan<- uint16) (alpha map[complex64][1]int16, _ k1.I1, _ [5][5]bool); do(struct{B float64 \"\\xc1\"; string []complex64 \"\\x87\"}) [2]func(k0.T0, complex128) (k0.T1, uint64, uint64); M101(_ []chan uint64, alpha k5.T0, _ <-chan uint16)}"},
	{reflect.TypeOf((*interface{k0.I0; do(_ [0]k0.T1, alpha *uint) (r byte, int k0.T0, p0 [8]k1.S0); T0(string, chan<- []k3.A0)})(nil)).Elem(), "interface{k0.I0; do(_ [0]k0.T1, alpha *uint) (r byte, int k0.T0, p0 [8]k1.S0); T0(string, chan<- []k3.A0)}"},
	{reflect.TypeOf((*struct{fld **k0.T1; error; *k6.A0 `json:"a"`; Fld chan<- rune})(nil)).Elem(), "struct{fld **k0.T1; error; *k6.A0 `json:\"a\"`; Fld chan<- rune}"},
	{reflect.TypeOf((*interface{Len(ctx []*uint32) (alpha interface{k0.I1; k3.I0}, b k2.T0, string [][0]uint64)})(nil)).Elem(), "interface{Len(ctx []*uint32) (alpha interface{k0.I1; k3.I0}, b k2.T0, string [][0]uint64)}"},
	{reflect.TypeOf((*interface{string(k0.Ünï, []<-chan int) (_ []k0.S0, _ uint64); Run([][]int16, map[interface{k7.I0; k3.I1; Get(complex128, uint) (b string, T0 int)}]map[byte]complex128, map[chan<- k2.T0]func(_ k0.Ünï, x1 k2.Ünï, b int64) (uint, k0.I1, int8)) (a struct{X interface{k7.I1; k2.I0; string() (byte, int16, bool)}; A interface{Len(_ k7.I0, b int, r k0.Ünï) (k8.I0, k7.T0, k10.A0); string() (float32, int16, int16); Ümé() (uint32, int8)}})})(nil)).Elem(), "interface{string(k0.Ünï, []<-chan int) (_ []k0.S0, _ uint64); Run([][]int16, map[interface{k7.I0; k3.I1; Get(complex128, uint) (b string, T0 int)}]map[byte]complex128, map[chan<- k2.T0]func(_ k0.Ünï, x1 k2.Ünï, b int64) (uint, k0.I1, int8)) (a struct{X interface{k7.I1; k2.I0; string() (byte, int16, bool)}; A interface{Len(_ k7.I0, b int, r k0.Ünï) (k8.I0, k7.T0, k10.A0); string() (float32, int16, int16); Ümé() (uint32, int8)}})}"},
	{reflect.TypeOf((*interface{Get()})(nil)).Elem(), "interface{Get()}"},
	{reflect.TypeOf((*interface{Do() (x1 k0.T1); Get(a interface{Run(error k7.Ünï) (T0 unsafe.Pointer)}, error interface{k2.I0}) (_ []k0.T1, _ **k0.T1, alpha func(a k7.I0, ctx int))})(nil)).Elem(), "interface{Do() (x1 k0.T1); Get(a interface{Run(error k7.Ünï) (T0 unsafe.Pointer)}, error interface{k2.I0}) (_ []k0.T1, _ **k0.T1, alpha func(a k7.I0, ctx int))}"},
	{reflect.TypeOf((*interface{k0.I1; error; string(_ int16, ctx *[]k6.A0, ärg ...func(x1 string, _ uint32, _ ...k1.I1)); Do(k3.A0, interface{k0.I0; Get([8]byte, []float64, struct{a k0.U}) (ärg map[int8]int8, b func(k0.T0, unsafe.Pointer, k2.I1) (k0.T0, int), alpha <-chan rune)}, [1]map[bool]k3.A0); Ümé(b int64)})(nil)).Elem(), "interface{k0.I1; error; string(_ int16, ctx *[]k6.A0, ärg ...func(x1 string, _ uint32, _ ...k1.I1)); Do(k3.A0, interface{k0.I0; Get([8]byte, []float64, struct{a k0.U}) (ärg map[int8]int8, b func(k0.T0, unsafe.Pointer, k2.I1) (k0.T0, int), alpha <-chan rune)}, [1]map[bool]k3.A0); Ümé(b int64)}"},
	{reflect.TypeOf((*interface{k5.I0; Len(float32); Ümé(alpha k0.A0) (ärg int)})(nil)).Elem(), "interface{k5.I0; Len(float32); Ümé(alpha k0.A0) (ärg int)}"},
	{reflect.TypeOf((*interface{k6.I1; k3.I1; Do(string k10.I1, _ ...struct{A map[string]k1.A0; ö int16 `json:"b,omitempty" xml:"c"`; X [4]int}) (b func(x1 ...byte) (p0 *uintptr, b interface{k2.I1; k3.I0; Run() (rune, bool)}, a interface{k9.I0; k2.I0; Ümé(_ k0.A0, x1 k0.S0, _ uint32)}))})(nil)).Elem(), "interface{k6.I1; k3.I1; Do(string k10.I1, _ ...struct{A map[string]k1.A0; ö int16 `json:\"b,omitempty\" xml:\"c\"`; X [4]int}) (b func(x1 ...byte) (p0 *uintptr, b interface{k2.I1; k3.I0; Run() (rune, bool)}, a interface{k9.I0; k2.I0; Ümé(_ k0.A0, x1 k0.S0, _ uint32)}))}"},
	{reflect.TypeOf((*struct{string bool `%s%d`})(nil)).Elem(), "struct{string bool `%s%d`}"},
	{reflect.TypeOf((*interface{Len(string *func(a bool, p0 k5.U, alpha int8) (k3.S0, k0.T1))})(nil)).Elem(), "interface{Len(string *func(a bool, p0 k5.U, alpha int8) (k3.S0, k0.T1))}"},
	{reflect.TypeOf((*interface{Do() (_ [2]chan<- int, int chan k0.T1, ctx <-chan [490]byte); Get() (error k1.U)})(nil)).Elem(), "interface{Do() (_ [2]chan<- int, int chan k0.T1, ctx <-chan [490]byte); Get() (error k1.U)}"},
	{reflect.TypeOf((*interface{do() (bool, chan *complex128); Len(_ map[k10.T1]int16, a chan<- []string, e ...k0.S0); get(k6.Ünï, map[int16]func(...uint16) (b k9.I0), ...map[string]k1.A0) ([]map[int]k6.I1, chan<- uint64)})(nil)).Elem(), "interface{do() (bool, chan *complex128); Len(_ map[k10.T1]int16, a chan<- []string, e ...k0.S0); get(k6.Ünï, map[int16]func(...uint16) (b k9.I0), ...map[string]k1.A0) ([]map[int]k6.I1, chan<- uint64)}"},
	{reflect.TypeOf((*interface{k0.I1; T0(_ func() (_ k0.T1, r chan int, _ map[int]int8), string *interface{k0.I0; k9.I0; get(_ k10.I1, error int16)}) (_ map[k2.A0]interface{error; Do() (x1 k4.A0, r k0.Ünï); string(r k0.T0, _ rune, _ ...k0.T0) (string k0.T1, error uint, a k8.I0); Ümé(ctx k0.T0) (a k5.T1)}, T0 [][]k1.T1, _ [0]uint32)})(nil)).Elem(), "interface{k0.I1; T0(_ func() (_ k0.T1, r chan int, _ map[int]int8), string *interface{k0.I0; k9.I0; get(_ k10.I1, error int16)}) (_ map[k2.A0]interface{error; Do() (x1 k4.A0, r k0.Ünï); string(r k0.T0, _ rune, _ ...k0.T0) (string k0.T1, error uint, a k8.I0); Ümé(ctx k0.T0) (a k5.T1)}, T0 [][]k1.T1, _ [0]uint32)}"},
	{reflect.TypeOf((*struct{B <-chan [34]k0.I1})(nil)).Elem(), "struct{B <-chan [34]k0.I1}"},
	{reflect.TypeOf((*interface{Do(k1.T1, interface{}, func(b map[k9.T0]int64, func_ uint) (string *k1.Ünï, ctx uint64, alpha [5]k9.T0)) (b int16, a chan map[k2.A0]k0.A0)})(nil)).Elem(), "interface{Do(k1.T1, interface{}, func(b map[k9.T0]int64, func_ uint) (string *k1.Ünï, ctx uint64, alpha [5]k9.T0)) (b int16, a chan map[k2.A0]k0.A0)}"},
	{reflect.TypeOf((*interface{Len(T0 uint32, _ func() (ctx int8), _ interface{Get(_ struct{Ünä byte}, r chan<- int, b *uintptr) (chan<- int, map[int16]int, k0.U); T0() (ctx uint, alpha map[byte]bool); string([]k0.A0) map[float64]int}) interface{k7.I1; k8.I1}})(nil)).Elem(), "interface{Len(T0 uint32, _ func() (ctx int8), _ interface{Get(_ struct{Ünä byte}, r chan<- int, b *uintptr) (chan<- int, map[int16]int, k0.U); T0() (ctx uint, alpha map[byte]bool); string([]k0.A0) map[float64]int}) interface{k7.I1; k8.I1}}"},
	{reflect.TypeOf((*struct{X bool})(nil)).Elem(), "struct{X bool}"},
	{reflect.TypeOf((*interface{k0.I0; k0.I1; string(*<-chan uint16, int16, func(interface{k8.I0; k1.I1; string(k9.I0, int, ...int); get(ctx k8.T1, x1 k0.T1) (float32, uint32)}, [8]rune)) (a rune, b map[[0]k0.T1]complex64, alpha map[interface{Get(int64, k0.A0, k0.T1) (bool, float32)}]k0.I1); Get(struct{A k0.T0}) (uint, int16); M101(_ func(r ...k4.Ünï), ärg string) (<-chan *int64, rune, []chan int)})(nil)).Elem(), "interface{k0.I0; k0.I1; string(*<-chan uint16, int16, func(interface{k8.I0; k1.I1; string(k9.I0, int, ...int); get(ctx k8.T1, x1 k0.T1) (float32, uint32)}, [8]rune)) (a rune, b map[[0]k0.T1]complex64, alpha map[interface{Get(int64, k0.A0, k0.T1) (bool, float32)}]k0.I1); Get(struct{A k0.T0}) (uint, int16); M101(_ func(r ...k4.Ünï), ärg string) (<-chan *int64, rune, []chan int)}"},
	{reflect.TypeOf((*struct{String chan<- float64 `Aᖋ`; *k0.T0})(nil)).Elem(), "struct{String chan<- float64 `Aᖋ`; *k0.T0}"},
	{reflect.TypeOf((*struct{A interface{k0.I1; k7.I0; get(func(T0 k6.T1) (uint16, int, k9.A0), map[int64]complex64, map[complex128]k7.Ünï) (_ k10.A0)} ` `; Fld []map[k9.A0]int `٣~ԯ`; *k1.Ünï})(nil)).Elem(), "struct{A interface{k0.I1; k7.I0; get(func(T0 k6.T1) (uint16, int, k9.A0), map[int64]complex64, map[complex128]k7.Ünï) (_ k10.A0)} ` `; Fld []map[k9.A0]int `٣~ԯ`; *k1.Ünï}"},
	{reflect.TypeOf((*struct{_ struct{A []k4.I0}; A [5]k2.T1})(nil)).Elem(), "struct{_ struct{A []k4.I0}; A [5]k2.T1}"},
	{reflect.TypeOf((*struct{Fld interface{k9.I1; k2.I1; Run() byte}})(nil)).Elem(), "struct{Fld interface{k9.I1; k2.I1; Run() byte}}"},
	{reflect.TypeOf((*interface{Get([]struct{k3.U; X k0.T0; Type uint}) (b struct{Ünä int16}, x1 k3.A0, r byte); Do(r [6]map[string]k0.T1) (b struct{A float64}, p0 byte, string int)})(nil)).Elem(), "interface{Get([]struct{k3.U; X k0.T0; Type uint}) (b struct{Ünä int16}, x1 k3.A0, r byte); Do(r [6]map[string]k0.T1) (b struct{A float64}, p0 byte, string int)}"},
	{reflect.TypeOf((*struct{C k0.T0})(nil)).Elem(), "struct{C k0.T0}"},
	{reflect.TypeOf((*struct{int interface{}; X k1.S0; A int; B <-chan *k0.Ünï})(nil)).Elem(), "struct{int interface{}; X k1.S0; A int; B <-chan *k0.Ünï}"},
	{reflect.TypeOf((*interface{k8.I1; k0.I0; Len() int8})(nil)).Elem(), "interface{k8.I1; k0.I0; Len() int8}"},
	{reflect.TypeOf((*interface{k6.I0; get() (_ *rune, _ []bool, a struct{String map[float32]complex64; B func() bool; X uint64 `json:"b,omitempty" xml:"c"`; k2.Ünï}); string()})(nil)).Elem(), "interface{k6.I0; get() (_ *rune, _ []bool, a struct{String map[float32]complex64; B func() bool; X uint64 `json:\"b,omitempty\" xml:\"c\"`; k2.Ünï}); string()}"},
	{reflect.TypeOf((*interface{k8.I0; Run(alpha map[struct{_ k2.A0; _ bool `tab	x`; Fld int; B k0.I1}]interface{Run(int k1.A0, e ...bool) (T0 float32, _ k0.T0, _ int); Do() (a bool); Ümé(bool)}, x1 interface{}) (error k0.T0); Len(alpha *[2]uint, _ k9.A0, _ <-chan func(k3.U)) (func(struct{*k10.T0; _ int `q"uote`; A uint16; *k0.T1 `json:"b,omitempty" xml:"c"`}, *int8, *float32), float32, []uint)})(nil)).Elem(), "interface{k8.I0; Run(alpha map[struct{_ k2.A0; _ bool `tab\tx`; Fld int; B k0.I1}]interface{Run(int k1.A0, e ...bool) (T0 float32, _ k0.T0, _ int); Do() (a bool); Ümé(bool)}, x1 interface{}) (error k0.T0); Len(alpha *[2]uint, _ k9.A0, _ <-chan func(k3.U)) (func(struct{*k10.T0; _ int `q\"uote`; A uint16; *k0.T1 `json:\"b,omitempty\" xml:\"c\"`}, *int8, *float32), float32, []uint)}"},
	{reflect.TypeOf((*interface{k0.I1; get(int8) (r func(_ *int, string []k7.S0, b []byte), b k1.A0)})(nil)).Elem(), "interface{k0.I1; get(int8) (r func(_ *int, string []k7.S0, b []byte), b k1.A0)}"},
	{reflect.TypeOf((*interface{k0.I0; k10.I1; get(int) (<-chan k10.I0, struct{k0.T0; B string; A complex64})})(nil)).Elem(), "interface{k0.I0; k10.I1; get(int) (<-chan k10.I0, struct{k0.T0; B string; A complex64})}"},
	{reflect.TypeOf((*struct{X struct{string []k9.I1; Fld rune "\xeb\x00\x03\x00\x1c\x0f\x00+"} `ᾍ/￦`; _ map[struct{B k2.T0}][]float32})(nil)).Elem(), "struct{X struct{string []k9.I1; Fld rune \"\\xeb\\x00\\x03\\x00\\x1c\\x0f\\x00+\"} `ᾍ/￦`; _ map[struct{B k2.T0}][]float32}"},
	{reflect.TypeOf((*interface{k0.I0; Run(a *complex64, b interface{k7.I0; k0.I0; string() chan complex64}, p0 func() []k3.I0) (p1 []struct{k2.Ünï; _ int64 `<aE=º`; A k0.U; X k0.Ünï}, string float32); Len(...[2]k0.T0) (_ [7]struct{}, _ uint16, T0 <-chan [0]bool); M101(_ struct{B k8.I1}, _ interface{get(k0.I1) (interface{k7.I1; Get(x1 k0.U) int8}, func(e complex128, string int8) (error uint64, p0 k1.T0)); T0(); Get(ärg uint64) (int *k0.T0, r uintptr, a interface{Get(ctx string, error ...float64) (int, k0.U)})}, int int64)})(nil)).Elem(), "interface{k0.I0; Run(a *complex64, b interface{k7.I0; k0.I0; string() chan complex64}, p0 func() []k3.I0) (p1 []struct{k2.Ünï; _ int64 `<a\u0094E=º`; A k0.U; X k0.Ünï}, string float32); Len(...[2]k0.T0) (_ [7]struct{}, _ uint16, T0 <-chan [0]bool); M101(_ struct{B k8.I1}, _ interface{get(k0.I1) (interface{k7.I1; Get(x1 k0.U) int8}, func(e complex128, string int8) (error uint64, p0 k1.T0)); T0(); Get(ärg uint64) (int *k0.T0, r uintptr, a interface{Get(ctx string, error ...float64) (int, k0.U)})}, int int64)}"},
	{reflect.TypeOf((*interface{Get(map[[7]k0.T1][]k0.T0); T0(bool)})(nil)).Elem(), "interface{Get(map[[7]k0.T1][]k0.T0); T0(bool)}"},
	{reflect.TypeOf((*struct{k0.S0; a float64; ö []struct{Ünä uint16; alpha k5.A0; _ int}; uint64 `json:"b,omitempty" xml:"c"`})(nil)).Elem(), "struct{k0.S0; a float64; ö []struct{Ünä uint16; alpha k5.A0; _ int}; uint64 `json:\"b,omitempty\" xml:\"c\"`}"},
	{reflect.TypeOf((*interface{string() (func() (ctx int16, _ byte), int16, map[interface{Run(...int) (func_ rune, ctx int); Do(k4.I1); M101(int k0.T1, x1 int) (_ int8, _ k1.S0, a k3.S0)}]byte); T0(byte, byte, func() (interface{k2.I0}, k0.U, k0.U)); Get(b struct{C map[int]k4.Ünï}) (interface{Get(...interface{k0.I1; Do() (k0.T1, bool); Get(x1 int16, _ k2.T1, ärg bool) (func_ bool, a int8)}) (ärg interface{get() (ctx float32, ärg k8.S0, T0 k1.I0)}, p0 func(uint, int64, k3.U) (int, k0.I0, k3.Ünï)); do() k0.U}, float64)})(nil)).Elem(), "interface{string() (func() (ctx int16, _ byte), int16, map[interface{Run(...int) (func_ rune, ctx int); Do(k4.I1); M101(int k0.T1, x1 int) (_ int8, _ k1.S0, a k3.S0)}]byte); T0(byte, byte, func() (interface{k2.I0}, k0.U, k0.U)); Get(b struct{C map[int]k4.Ünï}) (interface{Get(...interface{k0.I1; Do() (k0.T1, bool); Get(x1 int16, _ k2.T1, ärg bool) (func_ bool, a int8)}) (ärg interface{get() (ctx float32, ärg k8.S0, T0 k1.I0)}, p0 func(uint, int64, k3.U) (int, k0.I0, k3.Ünï)); do() k0.U}, float64)}"},
	{reflect.TypeOf((*interface{k10.I0; k1.I0; Do(x1 uint16, error func(_ interface{k9.I1; Get()}, string [122]int16, _ int)) (ctx map[k0.I0][]k3.A0, b int, r k1.T0)})(nil)).Elem(), "interface{k10.I0; k1.I0; Do(x1 uint16, error func(_ interface{k9.I1; Get()}, string [122]int16, _ int)) (ctx map[k0.I0][]k3.A0, b int, r k1.T0)}"},
	{reflect.TypeOf((*interface{Ümé([5]int, struct{Type [1]k8.Ünï; Ünä *string}) (error chan<- []byte)})(nil)).Elem(), "interface{Ümé([5]int, struct{Type [1]k8.Ünï; Ünä *string}) (error chan<- []byte)}"},
	{reflect.TypeOf((*interface{T0(); Do(struct{}, map[chan<- bool]k0.Ünï) (T0 [101]map[int]k0.T0, ctx struct{String string})})(nil)).Elem(), "interface{T0(); Do(struct{}, map[chan<- bool]k0.Ünï) (T0 [101]map[int]k0.T0, ctx struct{String string})}"},
	{reflect.TypeOf((*interface{k6.I1; k0.I0; Get() (r int, b *map[complex128]k0.S0); Do(b k0.T0, int func(k6.S0, interface{k2.I0; Get(T0 complex128, _ byte); M101(bool) (x1 int8, int k6.Ünï)}, interface{k10.I0; Do() (_ int16, b bool)}) (b interface{Ümé() (_ uint64, error k0.T0, _ uint32); Run(T0 float64) (float32, rune); string(k10.Ünï, uint16, k3.T1) (int int16, a int, _ float32)}, func_ chan<- int, _ k1.A0), ärg ...chan []k7.I1) struct{X func(int16, uint, ...k0.T1) uint16; k0.A0 `json:"b,omitempty" xml:"c"`}})(nil)).Elem(), "interface{k6.I1; k0.I0; Get() (r int, b *map[complex128]k0.S0); Do(b k0.T0, int func(k6.S0, interface{k2.I0; Get(T0 complex128, _ byte); M101(bool) (x1 int8, int k6.Ünï)}, interface{k10.I0; Do() (_ int16, b bool)}) (b interface{Ümé() (_ uint64, error k0.T0, _ uint32); Run(T0 float64) (float32, rune); string(k10.Ünï, uint16, k3.T1) (int int16, a int, _ float32)}, func_ chan<- int, _ k1.A0), ärg ...chan []k7.I1) struct{X func(int16, uint, ...k0.T1) uint16; k0.A0 `json:\"b,omitempty\" xml:\"c\"`}}"},
	{reflect.TypeOf((*struct{*uintptr; C map[struct{_ uint64}][]k0.T0; k5.I1; int k7.U `ࣉ`})(nil)).Elem(), "struct{*uintptr; C map[struct{_ uint64}][]k0.T0; k5.I1; int k7.U `ࣉ`}"},
	{reflect.TypeOf((*interface{k10.I1; k3.I0; Run() (r k3.Ünï, a <-chan [3]uint64, ctx *interface{k5.I0; k7.I1; Ümé(a k7.T1, error k0.T0) (uint, int16); Len(x1 rune); Get(float64, bool) (_ rune, T0 int8, error k0.T0)}); Get(a func(...map[k10.I0]k0.A0) (a int)) (_ interface{Get() (int, interface{Do() (uint64, k2.I0); string(x1 k6.I0, alpha ...int) float64})}, p0 func() (a int8, int *k0.T0, r *k5.I1), _ float64)})(nil)).Elem(), "interface{k10.I1; k3.I0; Run() (r k3.Ünï, a <-chan [3]uint64, ctx *interface{k5.I0; k7.I1; Ümé(a k7.T1, error k0.T0) (uint, int16); Len(x1 rune); Get(float64, bool) (_ rune, T0 int8, error k0.T0)}); Get(a func(...map[k10.I0]k0.A0) (a int)) (_ interface{Get() (int, interface{Do() (uint64, k2.I0); string(x1 k6.I0, alpha ...int) float64})}, p0 func() (a int8, int *k0.T0, r *k5.I1), _ float64)}"},
	{reflect.TypeOf((*struct{*k7.Ünï; B rune `json:"a"`})(nil)).Elem(), "struct{*k7.Ünï; B rune `json:\"a\"`}"},
	{reflect.TypeOf((*struct{alpha <-chan <-chan k0.T1})(nil)).Elem(), "struct{alpha <-chan <-chan k0.T1}"},
	{reflect.TypeOf((*interface{Len()})(nil)).Elem(), "interface{Len()}"},
	{reflect.TypeOf((*interface{do(b interface{}, p0 func(...*bool) (_ map[k0.T0]k1.U, b [1]float32)) (a <-chan uintptr)})(nil)).Elem(), "interface{do(b interface{}, p0 func(...*bool) (_ map[k0.T0]k1.U, b [1]float32)) (a <-chan uintptr)}"},
	{reflect.TypeOf((*struct{uintptr})(nil)).Elem(), "struct{uintptr}"},
	{reflect.TypeOf((*interface{error; do(func() (a map[int]k1.Ünï, _ chan k10.U)) (*<-chan k3.S0, chan<- <-chan bool, interface{k1.I1; k9.I0; T0(bool, *int8) (error k5.U, e int16); M101(...*int64)}); T0(e map[k8.I1]k0.U, b interface{T0(x1 []int, b k1.S0, p0 int) (k0.S0, byte, uint32)}) [7]chan<- complex128; Get(a map[uint32]chan<- rune, r *[2]bool, error ...struct{X []k8.U}) ([]*k1.A0, uint64)})(nil)).Elem(), "interface{error; do(func() (a map[int]k1.Ünï, _ chan k10.U)) (*<-chan k3.S0, chan<- <-chan bool, interface{k1.I1; k9.I0; T0(bool, *int8) (error k5.U, e int16); M101(...*int64)}); T0(e map[k8.I1]k0.U, b interface{T0(x1 []int, b k1.S0, p0 int) (k0.S0, byte, uint32)}) [7]chan<- complex128; Get(a map[uint32]chan<- rune, r *[2]bool, error ...struct{X []k8.U}) ([]*k1.A0, uint64)}"},
	{reflect.TypeOf((*interface{Ümé(T0 *<-chan complex64) (r *interface{k4.I1; Get(); T0(_ k0.T1, int bool) (k0.I0, int8, k10.I0)}, _ map[k5.Ünï]int, _ k0.T1)})(nil)).Elem(), "interface{Ümé(T0 *<-chan complex64) (r *interface{k4.I1; Get(); T0(_ k0.T1, int bool) (k0.I0, int8, k10.I0)}, _ map[k5.Ünï]int, _ k0.T1)}"},
	{reflect.TypeOf((*interface{Ümé(a struct{*k3.T1}, _ k4.Ünï, int map[k0.T0][]k0.U) (_ chan struct{B complex64; Fld k8.S0; k5.T1}, p0 k4.A0, b [5]chan k9.Ünï)})(nil)).Elem(), "interface{Ümé(a struct{*k3.T1}, _ k4.Ünï, int map[k0.T0][]k0.U) (_ chan struct{B complex64; Fld k8.S0; k5.T1}, p0 k4.A0, b [5]chan k9.Ünï)}"},
	{reflect.TypeOf((*interface{Len(); get() (b bool, p0 int8, a k4.I0)})(nil)).Elem(), "interface{Len(); get() (b bool, p0 int8, a k4.I0)}"},
	{reflect.TypeOf((*interface{k2.I1; Run(k0.Ünï, k0.U) (x1 k1.A0, a func() (a [6]k8.I1), r uintptr)})(nil)).Elem(), "interface{k2.I1; Run(k0.Ünï, k0.U) (x1 k1.A0, a func() (a [6]k8.I1), r uintptr)}"},
	{reflect.TypeOf((*interface{T0([0][]bool); Run() (k0.T0, [5][]uint, *interface{T0(a ...byte); Do(int8, int8) k5.I0})})(nil)).Elem(), "interface{T0([0][]bool); Run() (k0.T0, [5][]uint, *interface{T0(a ...byte); Do(int8, int8) k5.I0})}"},
	{reflect.TypeOf((*struct{Ünä k4.I1; alpha interface{Get(T0 int64, x1 interface{k1.I0; Ümé() (uint, k8.T0); T0() uint; string() bool}) (error [4]complex128); Len(uint32, <-chan bool, <-chan k9.T0)}})(nil)).Elem(), "struct{Ünä k4.I1; alpha interface{Get(T0 int64, x1 interface{k1.I0; Ümé() (uint, k8.T0); T0() uint; string() bool}) (error [4]complex128); Len(uint32, <-chan bool, <-chan k9.T0)}}"},
	{reflect.TypeOf((*struct{k4.I1})(nil)).Elem(), "struct{k4.I1}"},
	{reflect.TypeOf((*struct{*k1.T0})(nil)).Elem(), "struct{*k1.T0}"},
	{reflect.TypeOf((*struct{int *struct{Type bool} "a`b"; B interface{k3.I1; k1.I1; string(alpha *uint16, b chan<- bool) (int k1.Ünï, _ int8)}; C []string `é`})(nil)).Elem(), "struct{int *struct{Type bool} \"a`b\"; B interface{k3.I1; k1.I1; string(alpha *uint16, b chan<- bool) (int k1.Ünï, _ int8)}; C []string `é`}"},
	{reflect.TypeOf((*struct{C []k10.I1; G0 k0.U `𐻅:A'�ᾚ`; fld interface{Run(a struct{Fld int8}, alpha rune) byte; Ümé(ctx [8]uintptr)} "a`b"})(nil)).Elem(), "struct{C []k10.I1; G0 k0.U `𐻅:A'�ᾚ`; fld interface{Run(a struct{Fld int8}, alpha rune) byte; Ümé(ctx [8]uintptr)} \"a`b\"}"},
	{reflect.TypeOf((*interface{do(_ int8, b ...bool) (_ *[890]bool, _ interface{T0(T0 k1.I0, ärg struct{B byte; A byte "a`b"}) (error []k4.Ünï, string chan<- k8.I0); Run([]bool) (_ int, a chan string, _ interface{T0() (k1.T1, k0.S0); Get(int, int, ...uint32) (k4.A0, k1.I0, k1.T1)}); Do(x1 int16)}, _ *chan<- int8); Ümé() <-chan int; Do(func_ chan interface{}) (struct{k0.U; int chan k0.I1; Type map[int]k0.T0; k0.Ünï `json:"b,omitempty" xml:"c"`}, map[bool]map[uint32]bool, struct{})})(nil)).Elem(), "interface{do(_ int8, b ...bool) (_ *[890]bool, _ interface{T0(T0 k1.I0, ärg struct{B byte; A byte \"a`b\"}) (error []k4.Ünï, string chan<- k8.I0); Run([]bool) (_ int, a chan string, _ interface{T0() (k1.T1, k0.S0); Get(int, int, ...uint32) (k4.A0, k1.I0, k1.T1)}); Do(x1 int16)}, _ *chan<- int8); Ümé() <-chan int; Do(func_ chan interface{}) (struct{k0.U; int chan k0.I1; Type map[int]k0.T0; k0.Ünï `json:\"b,omitempty\" xml:\"c\"`}, map[bool]map[uint32]bool, struct{})}"},
	{reflect.TypeOf((*struct{Fld int `json:"a"`; alpha [0][]uint32})(nil)).Elem(), "struct{Fld int `json:\"a\"`; alpha [0][]uint32}"},
	{reflect.TypeOf((*interface{k0.I0; k5.I0; Do(k0.U) (e [6]k9.T0, alpha func() (string interface{}, int map[k3.A0]k0.Ünï, b k8.Ünï), x1 [8]int); T0(complex64) (*struct{String k0.T0; k0.S0}, k0.T0); Get() (r *[1]k4.T0, b uintptr)})(nil)).Elem(), "interface{k0.I0; k5.I0; Do(k0.U) (e [6]k9.T0, alpha func() (string interface{}, int map[k3.A0]k0.Ünï, b k8.Ünï), x1 [8]int); T0(complex64) (*struct{String k0.T0; k0.S0}, k0.T0); Get() (r *[1]k4.T0, b uintptr)}"},
	{reflect.TypeOf((*interface{T0(int struct{}) int; do(uint16, chan<- chan complex128, [6]map[uint32]error); Len() (a error)})(nil)).Elem(), "interface{T0(int struct{}) int; do(uint16, chan<- chan complex128, [6]map[uint32]error); Len() (a error)}"},
	{reflect.TypeOf((*struct{B chan<- interface{k0.I0; k7.I1}; G129 map[struct{X int16; A k0.I0 `\ꙋ&Ë*ᾝ`; G0 byte; B k4.I0 `q"uote`}][8]uintptr; uint16 `back\slash`; int interface{Do(uint32, ...map[int]uint32); do(int16); M101(interface{k0.I1; k5.I1}, ...map[int16]int) (r map[int]complex64, _ interface{string() (a k0.U, r bool)}, _ float64)}})(nil)).Elem(), "struct{B chan<- interface{k0.I0; k7.I1}; G129 map[struct{X int16; A k0.I0 `\\ꙋ&Ë*ᾝ`; G0 byte; B k4.I0 `q\"uote`}][8]uintptr; uint16 `back\\slash`; int interface{Do(uint32, ...map[int]uint32); do(int16); M101(interface{k0.I1; k5.I1}, ...map[int16]int) (r map[int]complex64, _ interface{string() (a k0.U, r bool)}, _ float64)}}"},
	{reflect.TypeOf((*interface{k8.I1; get(); do(bool, [2]int8, ...k1.A0) (ctx func(ctx chan<- k0.T0) (p0 k4.T0), x1 []byte, a map[int]map[k0.I1]rune); Get(interface{k0.I0; k9.I1; Do(...k0.U)}, ...*k1.U)})(nil)).Elem(), "interface{k8.I1; get(); do(bool, [2]int8, ...k1.A0) (ctx func(ctx chan<- k0.T0) (p0 k4.T0), x1 []byte, a map[int]map[k0.I1]rune); Get(interface{k0.I0; k9.I1; Do(...k0.U)}, ...*k1.U)}"},
	{reflect.TypeOf((*struct{k9.Ünï; Fld uint16 `%s%d`})(nil)).Elem(), "struct{k9.Ünï; Fld uint16 `%s%d`}"},
	{reflect.TypeOf((*interface{Do([9]k7.U); M102(map[struct{}]chan int16) interface{}; get(chan (<-chan bool)) (ctx uintptr, _ k6.S0, _ **k8.Ünï)})(nil)).Elem(), "interface{Do([9]k7.U); M102(map[struct{}]chan int16) interface{}; get(chan (<-chan bool)) (ctx uintptr, _ k6.S0, _ **k8.Ünï)}"},
	{reflect.TypeOf((*interface{Run(a byte, int [4][]complex128, b struct{A interface{k1.I1}; Ünä *int64}) (x1 [][]int); M102() (int k0.T0); Ümé(struct{}) (T0 [5]chan k0.T1, a string)})(nil)).Elem(), "interface{Run(a byte, int [4][]complex128, b struct{A interface{k1.I1}; Ünä *int64}) (x1 [][]int); M102() (int k0.T0); Ümé(struct{}) (T0 [5]chan k0.T1, a string)}"},
	{reflect.TypeOf((*struct{ö k9.T1; X bool; A *uint64})(nil)).Elem(), "struct{ö k9.T1; X bool; A *uint64}"},
	{reflect.TypeOf((*interface{error; Len()})(nil)).Elem(), "interface{error; Len()}"},
	{reflect.TypeOf((*interface{k9.I0; do(func() (interface{string(); Get(int16); Do() (bool, float32)}, struct{B k1.T1; _ string; String k8.U "ᾯ\x1bऻ"}), k3.T0, k6.I0) (string []*uint64)})(nil)).Elem(), "interface{k9.I0; do(func() (interface{string(); Get(int16); Do() (bool, float32)}, struct{B k1.T1; _ string; String k8.U \"ᾯ\\x1bऻ\"}), k3.T0, k6.I0) (string []*uint64)}"},
	{reflect.TypeOf((*interface{Do() []map[bool]float64})(nil)).Elem(), "interface{Do() []map[bool]float64}"},
	{reflect.TypeOf((*interface{k0.I1; Get(ctx k7.I0, func_ **k6.I1)})(nil)).Elem(), "interface{k0.I1; Get(ctx k7.I0, func_ **k6.I1)}"},
	{reflect.TypeOf((*interface{do() (T0 map[struct{A int; Type byte; String k5.T0; G673 uint `back\slash`}]uint32, r chan<- func(k5.I0, string) (_ int8, _ unsafe.Pointer, ärg int))})(nil)).Elem(), "interface{do() (T0 map[struct{A int; Type byte; String k5.T0; G673 uint `back\\slash`}]uint32, r chan<- func(k5.I0, string) (_ int8, _ unsafe.Pointer, ärg int))}"},
	{reflect.TypeOf((*interface{T0() ([]int64, interface{k7.I1; k2.I1})})(nil)).Elem(), "interface{T0() ([]int64, interface{k7.I1; k2.I1})}"},
	{reflect.TypeOf((*struct{Type k0.U; a *map[k3.I1]k0.Ünï `q"uote`})(nil)).Elem(), "struct{Type k0.U; a *map[k3.I1]k0.Ünï `q\"uote`}"},
	{reflect.TypeOf((*interface{Len(string, interface{Len(ärg ...[7]int) (uint, *int)}) (x1 interface{Get(_ k0.T1, ärg []complex128, _ func(uint32)) [0]string; Len() (k2.U, uint, *uint64); do()}, _ k6.U); Do([]k0.S0, bool) (float64, [0]chan<- uint32, map[k2.T1]func(k5.I0, int64, uint)); Get(*k0.T0, k0.I1, uint32) (e [1][]bool)})(nil)).Elem(), "interface{Len(string, interface{Len(ärg ...[7]int) (uint, *int)}) (x1 interface{Get(_ k0.T1, ärg []complex128, _ func(uint32)) [0]string; Len() (k2.U, uint, *uint64); do()}, _ k6.U); Do([]k0.S0, bool) (float64, [0]chan<- uint32, map[k2.T1]func(k5.I0, int64, uint)); Get(*k0.T0, k0.I1, uint32) (e [1][]bool)}"},
	{reflect.TypeOf((*struct{string byte; G488 [][9]uint})(nil)).Elem(), "struct{string byte; G488 [][9]uint}"},
	{reflect.TypeOf((*interface{Get() (map[interface{k0.I0}]int, struct{String k2.I0; X chan<- unsafe.Pointer})})(nil)).Elem(), "interface{Get() (map[interface{k0.I0}]int, struct{String k2.I0; X chan<- unsafe.Pointer})}"},
	{reflect.TypeOf((*struct{a *map[k0.T1]bool; Fld [0][]k0.A0; C int16})(nil)).Elem(), "struct{a *map[k0.T1]bool; Fld [0][]k0.A0; C int16}"},
	{reflect.TypeOf((*struct{k1.Ünï})(nil)).Elem(), "struct{k1.Ünï}"},
	{reflect.TypeOf((*interface{Get() (chan k0.U, *k3.I0)})(nil)).Elem(), "interface{Get() (chan k0.U, *k3.I0)}"},
	{reflect.TypeOf((*interface{Ümé(); get() (x1 []k0.T1); Get(func(int ...struct{}), [6]k8.Ünï, func() (func() (_ bool, alpha rune), complex128, func(x1 float32, p0 k0.U) k0.T0)) (ärg chan<- rune, _ map[[3]string]k0.S0)})(nil)).Elem(), "interface{Ümé(); get() (x1 []k0.T1); Get(func(int ...struct{}), [6]k8.Ünï, func() (func() (_ bool, alpha rune), complex128, func(x1 float32, p0 k0.U) k0.T0)) (ärg chan<- rune, _ map[[3]string]k0.S0)}"},
	{reflect.TypeOf((*interface{Ümé()})(nil)).Elem(), "interface{Ümé()}"},
	{reflect.TypeOf((*interface{do(x1 *map[k10.I0]k5.Ünï, r byte) (struct{B int64; X k10.S0; ö struct{k3.S0; X k2.U; A int64}; *k1.T0}, *map[k0.T0]complex64)})(nil)).Elem(), "interface{do(x1 *map[k10.I0]k5.Ünï, r byte) (struct{B int64; X k10.S0; ö struct{k3.S0; X k2.U; A int64}; *k1.T0}, *map[k0.T0]complex64)}"},
	{reflect.TypeOf((*struct{Ünä k0.Ünï; G84 uint16})(nil)).Elem(), "struct{Ünä k0.Ünï; G84 uint16}"},
	{reflect.TypeOf((*struct{Fld *struct{A k3.A0 "\x00"; a int8}; String func([]k3.I0) ([]k8.I1, func() (byte, byte, uint64), interface{Get(k3.T0) (error, k0.I1)})})(nil)).Elem(), "struct{Fld *struct{A k3.A0 \"\\x00\"; a int8}; String func([]k3.I0) ([]k8.I1, func() (byte, byte, uint64), interface{Get(k3.T0) (error, k0.I1)})}"},
	{reflect.TypeOf((*interface{do(map[int8]func(ctx string, b k3.I0, a k8.T1), struct{B struct{error} `back\slash`}); Len(a [3]map[uintptr]k4.U) (*interface{Do(int16, k10.U) (int, bool, int16)}, float64)})(nil)).Elem(), "interface{do(map[int8]func(ctx string, b k3.I0, a k8.T1), struct{B struct{error} `back\\slash`}); Len(a [3]map[uintptr]k4.U) (*interface{Do(int16, k10.U) (int, bool, int16)}, float64)}"},
	{reflect.TypeOf((*struct{k1.I1 "ᾈ\r~𐹡"; error})(nil)).Elem(), "struct{k1.I1 \"ᾈ\\r~𐹡\"; error}"},
	{reflect.TypeOf((*interface{Len(func() (<-chan int, func(uint32) (a k0.T1, string complex64, e float32)), ...struct{ö interface{k0.I0}}) (error [8]k3.I0, x1 int8, p0 *interface{k5.I0})})(nil)).Elem(), "interface{Len(func() (<-chan int, func(uint32) (a k0.T1, string complex64, e float32)), ...struct{ö interface{k0.I0}}) (error [8]k3.I0, x1 int8, p0 *interface{k5.I0})}"},
	{reflect.TypeOf((*interface{Do() (T0 [10]func(r k0.T0) k1.A0, r interface{k2.I0; k4.I0; Do(map[k7.I1]float64) (struct{}, k0.U, k10.A0); T0(byte) (_ k0.T0, b <-chan k6.A0); M101() (e []k0.T0, _ uint, _ *int8)}, a *func(k0.T1, int))})(nil)).Elem(), "interface{Do() (T0 [10]func(r k0.T0) k1.A0, r interface{k2.I0; k4.I0; Do(map[k7.I1]float64) (struct{}, k0.U, k10.A0); T0(byte) (_ k0.T0, b <-chan k6.A0); M101() (e []k0.T0, _ uint, _ *int8)}, a *func(k0.T1, int))}"},
	{reflect.TypeOf((*struct{A *<-chan k10.Ünï})(nil)).Elem(), "struct{A *<-chan k10.Ünï}"},
	{reflect.TypeOf((*struct{B [][2]int `tab	x`; A k0.S0; a map[string]complex128 "\f\x06\xff"})(nil)).Elem(), "struct{B [][2]int `tab\tx`; A k0.S0; a map[string]complex128 \"\\f\\x06\\xff\"}"},
	{reflect.TypeOf((*interface{k4.I0; Get() (map[chan<- uint16]chan int8, k0.T0, interface{k7.I1; k4.I1}); string(e uint64, x1 k0.S0) (struct{Fld chan<- k3.U ". \x03\x06"; A []k7.S0}, interface{}, **k0.U)})(nil)).Elem(), "interface{k4.I0; Get() (map[chan<- uint16]chan int8, k0.T0, interface{k7.I1; k4.I1}); string(e uint64, x1 k0.S0) (struct{Fld chan<- k3.U \". \\x03\\x06\"; A []k7.S0}, interface{}, **k0.U)}"},
	{reflect.TypeOf((*struct{Fld [][]k6.U})(nil)).Elem(), "struct{Fld [][]k6.U}"},
	{reflect.TypeOf((*interface{T0() *string; Do(func([3]byte, struct{String uint; X unsafe.Pointer; ö int16}, ...unsafe.Pointer) int16, int) (b int16)})(nil)).Elem(), "interface{T0() *string; Do(func([3]byte, struct{String uint; X unsafe.Pointer; ö int16}, ...unsafe.Pointer) int16, int) (b int16)}"},
	{reflect.TypeOf((*interface{k5.I1; k1.I0; Do(e interface{string(struct{}, k5.U, ...[1]bool) (interface{}, struct{*k9.T1; fld k4.U; Type uint16; alpha int8}); Run(int, int64, <-chan k2.T0) (string, <-chan uintptr, [3]k0.S0)}, ctx struct{A unsafe.Pointer; Fld [3]bool; alpha map[bool]complex128; *k1.T0}, p0 k1.T1)})(nil)).Elem(), "interface{k5.I1; k1.I0; Do(e interface{string(struct{}, k5.U, ...[1]bool) (interface{}, struct{*k9.T1; fld k4.U; Type uint16; alpha int8}); Run(int, int64, <-chan k2.T0) (string, <-chan uintptr, [3]k0.S0)}, ctx struct{A unsafe.Pointer; Fld [3]bool; alpha map[bool]complex128; *k1.T0}, p0 k1.T1)}"},
	{reflect.TypeOf((*interface{Get(b *interface{k8.I0; Get()}, a complex64) (chan *k0.S0, func(int8, *int, struct{B int}) (struct{}, <-chan k9.S0), *[]k8.S0)})(nil)).Elem(), "interface{Get(b *interface{k8.I0; Get()}, a complex64) (chan *k0.S0, func(int8, *int, struct{B int}) (struct{}, <-chan k9.S0), *[]k8.S0)}"},
	{reflect.TypeOf((*interface{get([][]k8.U, int, *k6.T1) (b [][3]k2.T1, ärg byte, p0 func(*k0.S0, uint64, *k0.T1))})(nil)).Elem(), "interface{get([][]k8.U, int, *k6.T1) (b [][3]k2.T1, ärg byte, p0 func(*k0.S0, uint64, *k0.T1))}"},
	{reflect.TypeOf((*interface{k0.I0; k0.I1; Get(a [0]uint32) (p0 int16); M102(ctx [0][0]k1.Ünï, _ int, x1 k0.T1); T0(r int64, b ...uint) (int k8.I1)})(nil)).Elem(), "interface{k0.I0; k0.I1; Get(a [0]uint32) (p0 int16); M102(ctx [0][0]k1.Ünï, _ int, x1 k0.T1); T0(r int64, b ...uint) (int k8.I1)}"},
	{reflect.TypeOf((*interface{Do(int, ...*k0.Ünï) (func_ []interface{Get() int16})})(nil)).Elem(), "interface{Do(int, ...*k0.Ünï) (func_ []interface{Get() int16})}"},
	{reflect.TypeOf((*interface{Ümé(rune) (map[interface{k6.I1; k0.I1; Do(T0 byte)}][2]int, *[]unsafe.Pointer)})(nil)).Elem(), "interface{Ümé(rune) (map[interface{k6.I1; k0.I1; Do(T0 byte)}][2]int, *[]unsafe.Pointer)}"},
	{reflect.TypeOf((*interface{k2.I0; k5.I1; Do(x1 float32, a []uint64, func_ interface{k1.I0; error; Run(int8, interface{k3.I1; do() uint; Run(error ...uintptr) (string, k1.T0); Ümé() (k9.T0, k6.S0)}, chan k0.T1) (r uint64, _ map[string]int16, _ struct{a int8}); T0(<-chan k4.T0, func(string k0.U, func_ uint64) (p0 bool, ctx k5.I1)) []int}) map[byte]int; Len(k9.I0)})(nil)).Elem(), "interface{k2.I0; k5.I1; Do(x1 float32, a []uint64, func_ interface{k1.I0; error; Run(int8, interface{k3.I1; do() uint; Run(error ...uintptr) (string, k1.T0); Ümé() (k9.T0, k6.S0)}, chan k0.T1) (r uint64, _ map[string]int16, _ struct{a int8}); T0(<-chan k4.T0, func(string k0.U, func_ uint64) (p0 bool, ctx k5.I1)) []int}) map[byte]int; Len(k9.I0)}"},
	{reflect.TypeOf((*interface{k1.I1; Get(_ k2.S0, a map[int]string, int k0.I0)})(nil)).Elem(), "interface{k1.I1; Get(_ k2.S0, a map[int]string, int k0.I0)}"},
	{reflect.TypeOf((*interface{Ümé(...[4]func(uint32, k0.T0, float64) (rune, k1.T0, bool)) ([]*error, struct{B func(_ k6.S0, x1 k3.S0, _ k0.T0) (_ k0.T1, e k0.U) "ʿ\n⊣"; C *uint32 "\x00\x008\x00\x00"; k2.A0}); get() func(complex128, *k0.T1)})(nil)).Elem(), "interface{Ümé(...[4]func(uint32, k0.T0, float64) (rune, k1.T0, bool)) ([]*error, struct{B func(_ k6.S0, x1 k3.S0, _ k0.T0) (_ k0.T1, e k0.U) \"ʿ\\n⊣\"; C *uint32 \"\\x00\\x008\\x00\\x00\"; k2.A0}); get() func(complex128, *k0.T1)}"},
	{reflect.TypeOf((*interface{Len(e k0.T0, _ float32) (k0.T0, int, chan<- struct{alpha uint32; Fld float64})})(nil)).Elem(), "interface{Len(e k0.T0, _ float32) (k0.T0, int, chan<- struct{alpha uint32; Fld float64})}"},
	{reflect.TypeOf((*interface{Run(_ [6]struct{B unsafe.Pointer}, b k0.I1) (x1 chan chan k0.U, int *[]k8.T0, p0 func() (func_ interface{})); string() *[1]float64; T0(...uint64)})(nil)).Elem(), "interface{Run(_ [6]struct{B unsafe.Pointer}, b k0.I1) (x1 chan chan k0.U, int *[]k8.T0, p0 func() (func_ interface{})); string() *[1]float64; T0(...uint64)}"},
	{reflect.TypeOf((*interface{k0.I1; string(*map[k8.I1]int8, ...interface{get(int k1.S0, b [9]string)}) (a interface{get() ([]rune, struct{k1.T1; C k0.T1}, map[complex64]bool); Run()}); Len(*interface{}, interface{k0.I1; Get(_ map[rune]k0.T1, x1 interface{Get() (_ int16, ärg uint16); Do() (r int); M101(int k0.T1) (_ int64, string k0.T1)}) uintptr; Len(chan<- k7.I0, bool, []k8.S0) (ctx *k6.S0, b k7.T0); Ümé(uint16, interface{k8.I0; k0.I0}, chan<- uint)}) (a [][1]bool, p0 k8.Ünï)})(nil)).Elem(), "interface{k0.I1; string(*map[k8.I1]int8, ...interface{get(int k1.S0, b [9]string)}) (a interface{get() ([]rune, struct{k1.T1; C k0.T1}, map[complex64]bool); Run()}); Len(*interface{}, interface{k0.I1; Get(_ map[rune]k0.T1, x1 interface{Get() (_ int16, ärg uint16); Do() (r int); M101(int k0.T1) (_ int64, string k0.T1)}) uintptr; Len(chan<- k7.I0, bool, []k8.S0) (ctx *k6.S0, b k7.T0); Ümé(uint16, interface{k8.I0; k0.I0}, chan<- uint)}) (a [][1]bool, p0 k8.Ünï)}"},
	{reflect.TypeOf((*interface{string(a struct{}, b func(ctx k3.T1, _ struct{k3.S0; A k0.S0; Ünä int `é`; B k9.I0 "\x00"}, _ *string), ärg int8)})(nil)).Elem(), "interface{string(a struct{}, b func(ctx k3.T1, _ struct{k3.S0; A k0.S0; Ünä int `é`; B k9.I0 \"\\x00\"}, _ *string), ärg int8)}"},
	{reflect.TypeOf((*interface{k2.I0; k10.I1; Do(...bool) (chan []int, bool, int16); Run(e k1.S0, r int64); M101(r ...*func() (a int16, ärg k0.S0)) (string map[k0.T1]int16, ctx map[chan<- error]k6.U)})(nil)).Elem(), "interface{k2.I0; k10.I1; Do(...bool) (chan []int, bool, int16); Run(e k1.S0, r int64); M101(r ...*func() (a int16, ärg k0.S0)) (string map[k0.T1]int16, ctx map[chan<- error]k6.U)}"},
	{reflect.TypeOf((*interface{k1.I1; Do() ([][]k6.T1, string, float32)})(nil)).Elem(), "interface{k1.I1; Do() ([][]k6.T1, string, float32)}"},
	{reflect.TypeOf((*struct{String map[string]chan float64; G2 interface{Run()} "a`b"; A chan interface{Run(e uintptr, r int64) (alpha k0.U, x1 k9.I0)}; string map[struct{A string}]uint16 "A\x04"})(nil)).Elem(), "struct{String map[string]chan float64; G2 interface{Run()} \"a`b\"; A chan interface{Run(e uintptr, r int64) (alpha k0.U, x1 k9.I0)}; string map[struct{A string}]uint16 \"A\\x04\"}"},
	{reflect.TypeOf((*interface{k1.I0; k2.I0; Do(x1 [9]struct{B bool; A uint "\x02"; k0.A0}, _ **string, _ uintptr) (error []int, p0 k0.S0)})(nil)).Elem(), "interface{k1.I0; k2.I0; Do(x1 [9]struct{B bool; A uint \"\\x02\"; k0.A0}, _ **string, _ uintptr) (error []int, p0 k0.S0)}"},
	{reflect.TypeOf((*interface{k0.I1; k5.I0; Get()})(nil)).Elem(), "interface{k0.I1; k5.I0; Get()}"},
	{reflect.TypeOf((*interface{Ümé() (float64, chan uint32); Get(alpha uint16) (interface{k1.I0; do(k0.T1, [5]k0.T1) k5.T1}, k0.A0); Len(b [][]uint, ctx bool) (k7.I0, struct{B uint `back\slash`; X *k8.U; G829 func()}, bool)})(nil)).Elem(), "interface{Ümé() (float64, chan uint32); Get(alpha uint16) (interface{k1.I0; do(k0.T1, [5]k0.T1) k5.T1}, k0.A0); Len(b [][]uint, ctx bool) (k7.I0, struct{B uint `back\\slash`; X *k8.U; G829 func()}, bool)}"},
	{reflect.TypeOf((*struct{k1.T1; Fld k8.Ünï; A func(interface{T0() (k0.T1, k3.T1); do(b int, x1 uint16, p0 int) (func_ k8.I0); Get() (string int)}) (map[uintptr]int16, k5.A0); a struct{A *rune; G23 map[uint]uintptr; a *k7.I0; Fld complex64 "\x05\x02"}})(nil)).Elem(), "struct{k1.T1; Fld k8.Ünï; A func(interface{T0() (k0.T1, k3.T1); do(b int, x1 uint16, p0 int) (func_ k8.I0); Get() (string int)}) (map[uintptr]int16, k5.A0); a struct{A *rune; G23 map[uint]uintptr; a *k7.I0; Fld complex64 \"\\x05\\x02\"}}"},
	{reflect.TypeOf((*interface{Run(map[float32]k0.T1, []k0.T1)})(nil)).Elem(), "interface{Run(map[float32]k0.T1, []k0.T1)}"},
	{reflect.TypeOf((*interface{k3.I0; k10.I0; Get() (ctx uint64, _ uint)})(nil)).Elem(), "interface{k3.I0; k10.I0; Get() (ctx uint64, _ uint)}"},
	{reflect.TypeOf((*interface{k10.I0; k7.I1; string(int16) (a chan func()); M102(); do() (k5.A0, interface{Do(error struct{fld k1.T0}, T0 *k4.I1, p0 k10.T0)}, interface{k1.I1; Run(ärg *k0.T1, x1 *int, alpha k0.T1) (string k3.A0, ctx func(int, k5.Ünï, ...k1.U))})})(nil)).Elem(), "interface{k10.I0; k7.I1; string(int16) (a chan func()); M102(); do() (k5.A0, interface{Do(error struct{fld k1.T0}, T0 *k4.I1, p0 k10.T0)}, interface{k1.I1; Run(ärg *k0.T1, x1 *int, alpha k0.T1) (string k3.A0, ctx func(int, k5.Ünï, ...k1.U))})}"},
	{reflect.TypeOf((*interface{error; k1.I1; Ümé(int64, map[*k0.S0]<-chan k0.Ünï, [32][]int8); Do(_ int, x1 ...chan [8]int8) map[*k0.T1]byte})(nil)).Elem(), "interface{error; k1.I1; Ümé(int64, map[*k0.S0]<-chan k0.Ünï, [32][]int8); Do(_ int, x1 ...chan [8]int8) map[*k0.T1]byte}"},
	{reflect.TypeOf((*interface{do() k2.U; get()})(nil)).Elem(), "interface{do() k2.U; get()}"},
	{reflect.TypeOf((*interface{Do(*[]k10.I0, []func(a complex128, b k3.I0) int, struct{X uint32; G13 [1]string})})(nil)).Elem(), "interface{Do(*[]k10.I0, []func(a complex128, b k3.I0) int, struct{X uint32; G13 [1]string})}"},
	{reflect.TypeOf((*interface{k7.I0; Do(int64, map[k9.Ünï]map[int]k0.A0) ([4][]unsafe.Pointer, []unsafe.Pointer); Len(e k0.T1, func_ chan<- [5]bool); string()})(nil)).Elem(), "interface{k7.I0; Do(int64, map[k9.Ünï]map[int]k0.A0) ([4][]unsafe.Pointer, []unsafe.Pointer); Len(e k0.T1, func_ chan<- [5]bool); string()}"},
	{reflect.TypeOf((*interface{k8.I1; k1.I0; Len()})(nil)).Elem(), "interface{k8.I1; k1.I0; Len()}"},
	{reflect.TypeOf((*interface{Run() (a k0.T0, b int16, ctx interface{k2.I1; Run(ctx [0]complex128, string uint, e int) (k6.A0, interface{k9.I0; k0.I0}); M102(string k0.I1, b func() (a k0.I1, e int8, string float32), error map[k0.I1]k1.A0) (_ func(a bool)); Get(error ...*k8.A0) chan int8}); string(interface{k5.I1; k0.I0; Len(); Do() (string k1.I0, b bool, _ interface{k0.I0; k8.I1})}, *uint)})(nil)).Elem(), "interface{Run() (a k0.T0, b int16, ctx interface{k2.I1; Run(ctx [0]complex128, string uint, e int) (k6.A0, interface{k9.I0; k0.I0}); M102(string k0.I1, b func() (a k0.I1, e int8, string float32), error map[k0.I1]k1.A0) (_ func(a bool)); Get(error ...*k8.A0) chan int8}); string(interface{k5.I1; k0.I0; Len(); Do() (string k1.I0, b bool, _ interface{k0.I0; k8.I1})}, *uint)}"},
	{reflect.TypeOf((*interface{k0.I0; k1.I0; Run(ctx chan *complex128); Get(a *func(int8, complex128, ...k0.T0) (k0.U, k10.T0, int), b interface{get(string int16)}, p0 ...k1.I0); M101([0]struct{C k0.Ünï}, []*uint64, *int64) bool})(nil)).Elem(), "interface{k0.I0; k1.I0; Run(ctx chan *complex128); Get(a *func(int8, complex128, ...k0.T0) (k0.U, k10.T0, int), b interface{get(string int16)}, p0 ...k1.I0); M101([0]struct{C k0.Ünï}, []*uint64, *int64) bool}"},
	{reflect.TypeOf((*struct{_ chan interface{k0.I0; get(r float64, a k0.S0, p0 ...k3.A0); Do(...uint32) int}})(nil)).Elem(), "struct{_ chan interface{k0.I0; get(r float64, a k0.S0, p0 ...k3.A0); Do(...uint32) int}}"},
	{reflect.TypeOf((*interface{k0.I0; Len(); Get([]map[k2.T0]uint, interface{k2.I1; Run(k0.T0, int16, ...k3.I0); Do(func(int8, rune) bool); Ümé(k8.I1, ...complex128)}, []chan<- int) (*float64, int)})(nil)).Elem(), "interface{k0.I0; Len(); Get([]map[k2.T0]uint, interface{k2.I1; Run(k0.T0, int16, ...k3.I0); Do(func(int8, rune) bool); Ümé(k8.I1, ...complex128)}, []chan<- int) (*float64, int)}"},
	{reflect.TypeOf((*interface{k2.I1; Get() [7]k0.T0})(nil)).Elem(), "interface{k2.I1; Get() [7]k0.T0}"},
	{reflect.TypeOf((*interface{k0.I1; get(int k9.A0, ctx [9]interface{k10.I0; k7.I0; Get(uintptr, float32, k0.S0) complex64}) (string k2.I0, ärg struct{B chan int16; Ünä complex64; C func(uint32) (x1 int8, _ string); G666 interface{T0(rune, uintptr, uint16) (int64, k0.T0, k9.A0); Ümé(b int16, T0 k8.U) (error k0.I0)}})})(nil)).Elem(), "interface{k0.I1; get(int k9.A0, ctx [9]interface{k10.I0; k7.I0; Get(uintptr, float32, k0.S0) complex64}) (string k2.I0, ärg struct{B chan int16; Ünä complex64; C func(uint32) (x1 int8, _ string); G666 interface{T0(rune, uintptr, uint16) (int64, k0.T0, k9.A0); Ümé(b int16, T0 k8.U) (error k0.I0)}})}"},
	{reflect.TypeOf((*interface{Ümé() (float64, complex128)})(nil)).Elem(), "interface{Ümé() (float64, complex128)}"},
	{reflect.TypeOf((*struct{int bool; G1 func(string ...[1000]bool) struct{}; String <-chan map[uint16]k0.I1})(nil)).Elem(), "struct{int bool; G1 func(string ...[1000]bool) struct{}; String <-chan map[uint16]k0.I1}"},
	{reflect.TypeOf((*interface{k1.I1; Len(ctx ...*map[int8]k0.I0)})(nil)).Elem(), "interface{k1.I1; Len(ctx ...*map[int8]k0.I0)}"},
	{reflect.TypeOf((*struct{*k6.Ünï})(nil)).Elem(), "struct{*k6.Ünï}"},
	{reflect.TypeOf((*struct{fld k0.T1; *k7.A0 `҉0˗`; B chan<- interface{Ümé(k0.T0, k6.I0, ...k7.Ünï) (_ k0.T0, b k9.T0, _ byte); string(uint32) (uintptr, byte, complex64)}})(nil)).Elem(), "struct{fld k0.T1; *k7.A0 `҉0˗`; B chan<- interface{Ümé(k0.T0, k6.I0, ...k7.Ünï) (_ k0.T0, b k9.T0, _ byte); string(uint32) (uintptr, byte, complex64)}}"},
	{reflect.TypeOf((*interface{k10.I1; T0()})(nil)).Elem(), "interface{k10.I1; T0()}"},
	{reflect.TypeOf((*struct{Ünä k9.T0 `ῼ̣`; G0 *map[bool]bool "\x02\x03"})(nil)).Elem(), "struct{Ünä k9.T0 `ῼ̣`; G0 *map[bool]bool \"\\x02\\x03\"}"},
	{reflect.TypeOf((*struct{X chan k10.I0})(nil)).Elem(), "struct{X chan k10.I0}"},
	{reflect.TypeOf((*struct{k6.Ünï; A map[int8]struct{} "\xf56\x02\x01"; k0.T0 `json:"b,omitempty" xml:"c"`})(nil)).Elem(), "struct{k6.Ünï; A map[int8]struct{} \"\\xf56\\x02\\x01\"; k0.T0 `json:\"b,omitempty\" xml:\"c\"`}"},
	{reflect.TypeOf((*interface{k6.I1; k1.I0; Run(uintptr, *bool, int) (_ struct{X map[complex64]k0.I0 `q"uote`}, _ **k0.S0, e *unsafe.Pointer); get([0][0]float64, [236]chan<- k0.S0, struct{A *byte; *k0.A0}) (r *map[k1.I1]k10.I0)})(nil)).Elem(), "interface{k6.I1; k1.I0; Run(uintptr, *bool, int) (_ struct{X map[complex64]k0.I0 `q\"uote`}, _ **k0.S0, e *unsafe.Pointer); get([0][0]float64, [236]chan<- k0.S0, struct{A *byte; *k0.A0}) (r *map[k1.I1]k10.I0)}"},
	{reflect.TypeOf((*interface{k1.I1; get(int func() map[k7.A0]uint32, _ <-chan uint16, _ k2.Ünï) k0.S0; T0(a *map[k5.A0]k1.S0); M101(x1 ...map[uint32]uint32) (interface{k0.I0}, interface{Get(byte) (float64, func(k1.T0, string, uintptr) (_ uint, int uint16, _ complex128)); string(alpha [0]k0.T0, int k0.T1, T0 chan k1.S0) ([8]k0.I0, []int16); Len()}, chan<- []int16)})(nil)).Elem(), "interface{k1.I1; get(int func() map[k7.A0]uint32, _ <-chan uint16, _ k2.Ünï) k0.S0; T0(a *map[k5.A0]k1.S0); M101(x1 ...map[uint32]uint32) (interface{k0.I0}, interface{Get(byte) (float64, func(k1.T0, string, uintptr) (_ uint, int uint16, _ complex128)); string(alpha [0]k0.T0, int k0.T1, T0 chan k1.S0) ([8]k0.I0, []int16); Len()}, chan<- []int16)}"},
	{reflect.TypeOf((*interface{k0.I0; Do() (**k5.A0, k0.T1, *k0.T1)})(nil)).Elem(), "interface{k0.I0; Do() (**k5.A0, k0.T1, *k0.T1)}"},
	{reflect.TypeOf((*struct{X uint32 ">\x0f\x03\x05\x00"})(nil)).Elem(), "struct{X uint32 \">\\x0f\\x03\\x05\\x00\"}"},
	{reflect.TypeOf((*interface{k2.I1; k0.I0; T0(bool); Get(interface{k6.I0; Do(a func(k0.I1) (string, k3.I1, uint), func_ *k0.U, alpha k0.T0) (error k4.I0)}) ([]func(ctx float32, p0 k0.T1, alpha int) k6.U, k1.I0, []interface{}); Do() (alpha *interface{k10.I1; Do(k8.I0) (uint32, k3.S0, k0.I0)}, r <-chan int)})(nil)).Elem(), "interface{k2.I1; k0.I0; T0(bool); Get(interface{k6.I0; Do(a func(k0.I1) (string, k3.I1, uint), func_ *k0.U, alpha k0.T0) (error k4.I0)}) ([]func(ctx float32, p0 k0.T1, alpha int) k6.U, k1.I0, []interface{}); Do() (alpha *interface{k10.I1; Do(k8.I0) (uint32, k3.S0, k0.I0)}, r <-chan int)}"},
	{reflect.TypeOf((*interface{Run(error []string, e struct{}, p0 interface{T0(); Get(error float64, a [127]k6.T0, p0 k1.Ünï) (b *int16); Do(interface{}, k8.I1, ...chan k6.I0) (b uint32)})})(nil)).Elem(), "interface{Run(error []string, e struct{}, p0 interface{T0(); Get(error float64, a [127]k6.T0, p0 k1.Ünï) (b *int16); Do(interface{}, k8.I1, ...chan k6.I0) (b uint32)})}"},
	{reflect.TypeOf((*interface{do(_ <-chan struct{C k6.I1 `tab	x`; B complex64 `json:"a"`; a complex64}, _ map[k6.T0]func(func_ rune, ctx int, ärg ...k0.S0) k9.Ünï, b map[[6]int][0]bool)})(nil)).Elem(), "interface{do(_ <-chan struct{C k6.I1 `tab\tx`; B complex64 `json:\"a\"`; a complex64}, _ map[k6.T0]func(func_ rune, ctx int, ärg ...k0.S0) k9.Ünï, b map[[6]int][0]bool)}"},
	{reflect.TypeOf((*struct{String func(k1.T0) (ärg k10.S0) `q"uote`})(nil)).Elem(), "struct{String func(k1.T0) (ärg k10.S0) `q\"uote`}"},
}

//go:build go1.18

// Package zzghost holds the specification vocabulary of the contracts. Every function here has a plain executable
// meaning (used when a failed obligation is replayed on the real code) and a logical meaning inside the verifier.
package zzghost

import (
	"fmt"
	"reflect"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/suites"
)

var suite = suites.MustFind("Ed25519")

// Skip is raised when a generated input violates a precondition.
type Skip struct{}

// Broken is raised when a postcondition is false.
type Broken struct{ Label string }

func (b Broken) Error() string { return "postcondition violated: " + b.Label }

// Modified collects what the running contract is allowed to change.
var Modified []interface{}

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Ensures states a postcondition.
func Ensures(label string, c bool) {
	if !c {
		panic(Broken{label})
	}
}

// Modifies lists the inputs the code under contract may change.
func Modifies(xs ...interface{}) { Modified = append(Modified, xs...) }

// AllowOpen allows goroutines to outlive the contract.
func AllowOpen() {}

// Implies is logical implication of evaluated conditions.
func Implies(a, b bool) bool { return !a || b }

// Iff is logical equivalence.
func Iff(a, b bool) bool { return a == b }

// Forall holds when f holds for every index in [0,n).
func Forall(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f holds for some index in [0,n).
func Exists(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// SumPoint adds f(0)..f(n-1).
func SumPoint(n int, f func(i int) kyber.Point) kyber.Point {
	r := suite.Point().Null()
	for i := 0; i < n; i++ {
		r = suite.Point().Add(r, f(i))
	}
	return r
}

// SumScalar adds f(0)..f(n-1).
func SumScalar(n int, f func(i int) kyber.Scalar) kyber.Scalar {
	r := suite.Scalar().Zero()
	for i := 0; i < n; i++ {
		r = suite.Scalar().Add(r, f(i))
	}
	return r
}

// Fresh: each of f(0)..f(n-1) is a draw of the random source of its own.
func Fresh(n int, f func(i int) kyber.Scalar) bool {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := f(i).String()
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// FreshPoint: each of f(0)..f(n-1) is the multiple of the base point by a draw of its own.
func FreshPoint(n int, f func(i int) kyber.Point) bool {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := f(i).String()
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// SumInt adds f(0)..f(n-1).
func SumInt(n int, f func(i int) int64) int64 {
	var r int64
	for i := 0; i < n; i++ {
		r += f(i)
	}
	return r
}

// Build makes the slice f(0)..f(n-1).
func Build[T any](n int, f func(i int) T) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

// Plus, Minus, Times never change their operands.
func Plus(a, b kyber.Point) kyber.Point               { return suite.Point().Add(a, b) }
func Minus(a, b kyber.Point) kyber.Point              { return suite.Point().Sub(a, b) }
func Times(s kyber.Scalar, p kyber.Point) kyber.Point { return suite.Point().Mul(s, p) }
func PlusS(a, b kyber.Scalar) kyber.Scalar            { return suite.Scalar().Add(a, b) }
func MinusS(a, b kyber.Scalar) kyber.Scalar           { return suite.Scalar().Sub(a, b) }
func TimesS(a, b kyber.Scalar) kyber.Scalar           { return suite.Scalar().Mul(a, b) }
func Base() kyber.Point                               { return suite.Point().Base() }
func ZeroPoint() kyber.Point                          { return suite.Point().Null() }
func ZeroScalar() kyber.Scalar                        { return suite.Scalar().Zero() }
func IntScalar(i int64) kyber.Scalar                  { return suite.Scalar().SetInt64(i) }
func SamePoint(a, b kyber.Point) bool {
	return a != nil && b != nil && a.Equal(b)
}
func SameScalar(a, b kyber.Scalar) bool { return a != nil && b != nil && a.Equal(b) }

// Log is the integer of which p is the multiple of the base point, found by search.
func Log(p kyber.Point) int64 {
	up, down := ZeroPoint(), ZeroPoint()
	for i := int64(0); i < 1<<17; i++ {
		if up.Equal(p) {
			return i
		}
		if down.Equal(p) {
			return -i
		}
		up, down = Plus(up, Base()), Minus(down, Base())
	}
	panic(Skip{})
}

// ShuffleWitness is what an accepted shuffle proof is knowledge of; it cannot be computed.
func ShuffleWitness(name string, transcript []byte, g, h kyber.Point, x, y, xbar, ybar []kyber.Point) ([]int, []kyber.Scalar) {
	panic(Skip{})
}

// Unknown is an unspecified function of its arguments; it occurs in specifications of callees only.
func Unknown(name string, args ...interface{}) bool { panic(Skip{}) }

// UnknownBytes is the same for byte strings.
func UnknownBytes(name string, args ...interface{}) []byte { panic(Skip{}) }

// SameTranscript: a and b are the same transcript. Transcripts contain fresh randomness, so two runs are compared by run.
func SameTranscript(a, b []byte, run func() bool) bool { return run() }

// SameUpToOrder: a and b hold the same elements, as often. It may be used in postconditions only.
func SameUpToOrder[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for i := range a {
		for j := range b {
			if !used[j] && Same(a[i], b[j]) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

// Message is a message handed over for sending: to the node To, or to the parent or the children.
type Message struct {
	To               interface{}
	Parent, Children bool
	Msg              interface{}
}

// Outbox collects the messages the running contract sends, as they were when they were sent.
var Outbox []Message

// Record notes that a message is sent.
func Record(to interface{}, parent, children bool, msg interface{}) {
	Outbox = append(Outbox, Message{To: to, Parent: parent, Children: children, Msg: deepCopy(reflect.ValueOf(&msg).Elem()).Interface()})
}

// SentCount is the number of messages sent.
func SentCount() int { return len(Outbox) }

// Sent is the k-th message sent.
func Sent(k int) interface{} { return Outbox[k].Msg }

// SentTo tells whether the k-th message sent went to this node.
func SentTo(k int, node interface{}) bool { return Outbox[k].To == node }

// SentToParent tells whether the k-th message sent went to the parent of the node.
func SentToParent(k int) bool { return Outbox[k].Parent }

// SentToChildren tells whether the k-th message sent went to all children of the node.
func SentToChildren(k int) bool { return Outbox[k].Children }

// Some is an unspecified function of i.
func Some(i int64) int64 { return i }

// HasKey tells whether k is in m.
func HasKey[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// ForallKeys holds when f holds for every key of m.
func ForallKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// CeilMul is the number of items selected by a percentage.
func CeilMul(p float64, n int) int {
	f := p * float64(n)
	r := int(f)
	if float64(r) < f {
		r++
	}
	return r
}

// ValidPercent tells whether p is in [0,1].
func ValidPercent(p float64) bool { return p >= 0 && p <= 1 }

// Old is a deep copy of x.
func Old[T any](x T) T {
	v := reflect.ValueOf(&x).Elem()
	return deepCopy(v).Interface().(T)
}

// Copy is the untyped Old.
func Copy(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(x)).Interface()
}

func deepCopy(v reflect.Value) reflect.Value {
	t := v.Type()
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(t).Elem()
		switch p := v.Interface().(type) {
		case kyber.Point:
			r.Set(reflect.ValueOf(p.Clone()))
		case kyber.Scalar:
			r.Set(reflect.ValueOf(p.Clone()))
		default:
			r.Set(deepCopy(v.Elem()))
		}
		return r
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if v.CanInterface() {
			switch p := v.Interface().(type) {
			case kyber.Point:
				return reflect.ValueOf(p.Clone())
			case kyber.Scalar:
				return reflect.ValueOf(p.Clone())
			}
		}
		r := reflect.New(t.Elem())
		r.Elem().Set(deepCopy(v.Elem()))
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deepCopy(v.Index(i)))
		}
		return r
	case reflect.Array:
		r := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deepCopy(v.Index(i)))
		}
		return r
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMap(t)
		for _, k := range v.MapKeys() {
			r.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return r
	case reflect.Struct:
		r := reflect.New(t).Elem()
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				r.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return r
	}
	return v
}

// Same is deep equality where group elements are compared by value and nil and empty collections are alike.
func Same[T any](a, b T) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

// SameAny is the untyped Same.
func SameAny(a, b interface{}) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if p, ok := a.Interface().(kyber.Point); ok {
			q, ok := b.Interface().(kyber.Point)
			return ok && p.Equal(q)
		}
		if p, ok := a.Interface().(kyber.Scalar); ok {
			q, ok := b.Interface().(kyber.Scalar)
			return ok && p.Equal(q)
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return same(a.Elem(), b.Elem())
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !same(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan:
		return true
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	}
	if !a.CanInterface() {
		return true
	}
	return fmt.Sprint(a.Interface()) == fmt.Sprint(b.Interface())
}

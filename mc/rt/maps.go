package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// Keys lists the keys of m in an order the explorer owns: sorted, or reversed
// as a deviation. Keys without an intrinsic order (pointers) keep map order.
func Keys[M ~map[K]V, K comparable, V any](m M, what string) []K {
	RdMap(m, what)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	t := reflect.TypeOf(ks).Elem()
	switch t.Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		return ks
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	if S != nil && !S.dead && S.noDecide == 0 && S.chooseN(2, false) == 1 {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// KeysOf evaluates a map once for an instrumented range statement.
func KeysOf[M ~map[K]V, K comparable, V any](m M, what string) (M, []K, int) {
	return m, Keys(m, what), 0
}

// MakeLike makes a channel of the type of the (nil) example.
func MakeLike[T any](_ *Chan[T], n ...int) *Chan[T] { return MakeChan[T](n...) }

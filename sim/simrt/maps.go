//go:build go1.23

package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// MapIterT iterates over a map in an order that the run decides.
type MapIterT[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

//go:norace
func mapOrder() (string, uint64) {
	w := active
	if w == nil {
		return initOrder()
	}
	switch w.cfg.MapOrder {
	case "shuffle":
		w.mapSeq++
		return "shuffle", Mix(w.cfg.MapSeed, w.mapSeq)
	case "reverse":
		return "reverse", 0
	}
	return "sorted", 0
}

var initMode, initSeed, initSeq = "sorted", uint64(0), uint64(0)

// InitOrder sets the order of maps outside of a run: while packages are
// initialised.
func InitOrder(mode string, seed uint64) { initMode, initSeed, initSeq = mode, seed, 0 }

//go:norace
func initOrder() (string, uint64) {
	if initMode == "shuffle" {
		initSeq++
		return "shuffle", Mix(initSeed, initSeq)
	}
	return initMode, 0
}

// OrderMode is used by simsync.
//
//go:norace
func OrderMode() (string, uint64) { return mapOrder() }

// Order puts keys in the order the run decides.
//
//go:norace
func Order[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	mode, seed := mapOrder()
	sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) })
	switch mode {
	case "reverse":
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case "shuffle":
		for i := len(keys) - 1; i > 0; i-- {
			j := int(Mix(seed, uint64(i)) % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
}

//go:norace
func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if less(a.Field(i), b.Field(i)) {
				return true
			}
			if less(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if less(a.Index(i), b.Index(i)) {
				return true
			}
			if less(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && !b.IsNil()
		}
		if at, bt := a.Elem().Type().String(), b.Elem().Type().String(); at != bt {
			return at < bt
		}
		return less(a.Elem(), b.Elem())
	}
	return fmt.Sprint(a) < fmt.Sprint(b) // pointers, channels: arbitrary
}

//go:norace
func snapshot[K comparable, V any](m map[K]V) *MapIterT[K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	Order(keys)
	return &MapIterT[K, V]{m: m, keys: keys}
}

//go:norace
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIterT[K, V] { return snapshot(map[K]V(m)) }

//go:norace
func MapIterK[M ~map[K]V, K comparable, V any](m M) (*MapIterT[K, V], K) {
	var k K
	return snapshot(map[K]V(m)), k
}

//go:norace
func MapIterV[M ~map[K]V, K comparable, V any](m M) (*MapIterT[K, V], V) {
	var v V
	return snapshot(map[K]V(m)), v
}

//go:norace
func MapIterKV[M ~map[K]V, K comparable, V any](m M) (*MapIterT[K, V], K, V) {
	var k K
	var v V
	return snapshot(map[K]V(m)), k, v
}

//go:norace
func (it *MapIterT[K, V]) step() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	return k, v, false
}

//go:norace
func (it *MapIterT[K, V]) Next() bool { _, _, ok := it.step(); return ok }

//go:norace
func (it *MapIterT[K, V]) NextK(kp *K) bool {
	k, _, ok := it.step()
	if ok {
		*kp = k
	}
	return ok
}

//go:norace
func (it *MapIterT[K, V]) NextV(vp *V) bool {
	_, v, ok := it.step()
	if ok {
		*vp = v
	}
	return ok
}

//go:norace
func (it *MapIterT[K, V]) NextKV(kp *K, vp *V) bool {
	k, v, ok := it.step()
	if ok {
		*kp, *vp = k, v
	}
	return ok
}

// ChanIterT ranges over a channel.
type ChanIterT[T any] struct{ ch <-chan T }

//go:norace
func ChanIter[T any](ch <-chan T) *ChanIterT[T] { return &ChanIterT[T]{ch} }

//go:norace
func ChanIterK[T any](ch <-chan T) (*ChanIterT[T], T) {
	var v T
	return &ChanIterT[T]{ch}, v
}

//go:norace
func (it *ChanIterT[T]) Next() bool { _, ok := Recv2(it.ch); return ok }

//go:norace
func (it *ChanIterT[T]) NextK(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok {
		*p = v
	}
	return ok
}

//go:norace
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := snapshot(map[K]V(m)); ; {
			k, _, ok := it.step()
			if !ok || !yield(k) {
				return
			}
		}
	}
}

//go:norace
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := snapshot(map[K]V(m)); ; {
			_, v, ok := it.step()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

//go:norace
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := snapshot(map[K]V(m)); ; {
			k, v, ok := it.step()
			if !ok || !yield(k, v) {
				return
			}
		}
	}
}

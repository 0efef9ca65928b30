package rt

import (
	"fmt"
	"math"
	"reflect"
	"sort"
)

// Map iteration: a snapshot of the keys in a canonical order, permuted by the
// environment's generator; entries deleted meanwhile are skipped.

func (w *World) mapRand() *Rand { return w.env }

// MapIt is a map iteration in progress.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	SortKeys(it.keys)
	n := len(it.keys)
	for i := n - 1; i > 0; i-- {
		j := MapRandInt(i + 1)
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	return it
}

// MapRandInt draws from the environment.
func MapRandInt(n int) int {
	if W == nil {
		return 0
	}
	return W.env.Intn(n)
}

// Next advances.
func (it *MapIt[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}

// Key is the current key.
func (it *MapIt[K, V]) Key() K { return it.k }

// Val is the current value.
func (it *MapIt[K, V]) Val() V { return it.v }

// SortKeys sorts map keys canonically.
func SortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	}
	vs := make([]reflect.Value, len(ks))
	for i := range ks {
		vs[i] = reflect.ValueOf(&ks[i]).Elem()
	}
	idx := make([]int, len(ks))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return lessValue(vs[idx[a]], vs[idx[b]]) < 0 })
	out := make([]K, len(ks))
	for i, j := range idx {
		out[i] = ks[j]
	}
	for i := range out {
		ks[i] = out[i]
	}
}

func lessValue(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Bool:
		x, y := a.Bool(), b.Bool()
		if x == y {
			return 0
		}
		if !x {
			return -1
		}
		return 1
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, y := a.Int(), b.Int()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, y := a.Uint(), b.Uint()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Float32, reflect.Float64:
		return lessFloat(a.Float(), b.Float())
	case reflect.Complex64, reflect.Complex128:
		if c := lessFloat(real(a.Complex()), real(b.Complex())); c != 0 {
			return c
		}
		return lessFloat(imag(a.Complex()), imag(b.Complex()))
	case reflect.String:
		x, y := a.String(), b.String()
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := lessValue(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := lessValue(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return 0
			} else if a.IsNil() {
				return -1
			}
			return 1
		}
		x, y := a.Elem().Type().String(), b.Elem().Type().String()
		if x != y {
			if x < y {
				return -1
			}
			return 1
		}
		return lessValue(a.Elem(), b.Elem())
	case reflect.Pointer:
		// Order by content where there is one; equal contents keep the order of
		// the runtime's iteration, so the caller is warned.
		if a.Pointer() == b.Pointer() {
			return 0
		}
		if a.IsNil() {
			return -1
		}
		if b.IsNil() {
			return 1
		}
		if c := lessContent(a, b, 0); c != 0 {
			return c
		}
		ptrTies++
		return 0
	case reflect.Chan, reflect.UnsafePointer:
		ptrTies++
		return 0
	}
	panic(fmt.Sprintf("map key kind %v", a.Kind()))
}

var ptrTies int

func lessContent(a, b reflect.Value, d int) int {
	x, y := fmt.Sprintf("%v", shallow(a)), fmt.Sprintf("%v", shallow(b))
	if x < y {
		return -1
	} else if x > y {
		return 1
	}
	return 0
}

func shallow(a reflect.Value) string {
	e := a.Elem()
	switch e.Kind() {
	case reflect.Struct:
		s := ""
		for i := 0; i < e.NumField(); i++ {
			f := e.Field(i)
			switch f.Kind() {
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint64, reflect.Uint32, reflect.Float64, reflect.Float32, reflect.String, reflect.Bool, reflect.Uint8:
				s += fmt.Sprintf("%v|", f)
			}
		}
		return s
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint64, reflect.Uint32, reflect.Float64, reflect.Float32, reflect.String, reflect.Bool:
		return fmt.Sprint(e)
	}
	return ""
}

// PtrTies counts map keys that could not be ordered canonically.
func PtrTies() int { return ptrTies }

func lessFloat(x, y float64) int {
	if x < y {
		return -1
	} else if x > y {
		return 1
	} else if x == y {
		return 0
	}
	nx, ny := math.IsNaN(x), math.IsNaN(y)
	if nx && !ny {
		return -1
	} else if ny && !nx {
		return 1
	}
	return 0
}

// EnvUint64 draws from the environment's generator.
func EnvUint64() uint64 {
	if W == nil {
		return 4
	}
	return W.env.Uint64()
}

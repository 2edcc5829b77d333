package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapKeys returns the keys of m in an order that depends on nothing but the
// keys and the running task's random stream: instrumented code ranges over it
// in place of the map, whose own order would depend on addresses.
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	names := make([]string, len(keys))
	for i := range keys {
		names[i] = keyName(keys[i])
	}
	sort.Sort(&byName[K]{keys, names})
	for i := len(keys) - 1; i > 0; i-- {
		j := int((Rand() >> 11) % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

type byName[K any] struct {
	k []K
	n []string
}

func (b *byName[K]) Len() int           { return len(b.k) }
func (b *byName[K]) Less(i, j int) bool { return b.n[i] < b.n[j] }
func (b *byName[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.n[i], b.n[j] = b.n[j], b.n[i]
}

func keyName(k interface{}) string {
	if t, ok := k.(reflect.Type); ok {
		return typeName(t)
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Func:
		return fmt.Sprintf("%016x", v.Pointer())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	}
	return fmt.Sprintf("%v", k)
}

// GoCall starts f(args...) as another task, the arguments evaluated now.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		pt := ft.In(min(i, ft.NumIn()-1))
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = pt.Elem()
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a).Convert(pt)
		}
	}
	Go(func() { fv.Call(in) })
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// typeName tells types apart that have the same name, without looking at
// their addresses.
func typeName(t reflect.Type) string {
	n := t.PkgPath() + " " + t.String()
	e := t
	for e.Kind() == reflect.Ptr {
		e = e.Elem()
	}
	if e.Kind() == reflect.Struct {
		for i := 0; i < e.NumField(); i++ {
			f := e.Field(i)
			n += "\n" + f.Name + " " + f.Type.String() + " " + string(f.Tag)
		}
	}
	return n
}

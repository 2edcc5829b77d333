package ref

import (
	"reflect"
	"unsafe"
)

// Sprinkle changes how the message v points to is represented without
// changing what it says: empty maps and slices where there were none, spare
// capacity with old contents behind the elements, maps that have had more
// entries, values in untagged fields.
func Sprinkle(v reflect.Value, r *Rng) { sprinkle(v.Elem(), Desc(v.Type().Elem()), r, 40) }

func sprinkle(v reflect.Value, m *Msg, r *Rng, depth int) {
	if depth == 0 {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		if pad(v.Type().Field(i)) {
			x := v.Field(i)
			switch x.Kind() {
			case reflect.Uint8:
				x.SetUint(uint64(r.Intn(256)))
			case reflect.Array:
				x.Index(r.Intn(x.Len())).SetUint(uint64(r.Intn(256)))
			}
		}
	}
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		switch {
		case f.Card == Map:
			switch {
			case fv.IsNil() && r.P(500):
				fv.Set(reflect.MakeMapWithSize(fv.Type(), r.Pick(0, 0, 3, 20)))
			case fv.IsNil() || r.P(500):
			default:
				n := reflect.MakeMapWithSize(fv.Type(), r.Pick(0, 1, 20, 200))
				for _, k := range fv.MapKeys() {
					n.SetMapIndex(k, fv.MapIndex(k))
				}
				for i := r.Pick(0, 1, 5, 30); i > 0; i-- {
					kv := reflect.New(fv.Type().Key()).Elem()
					Set(f.Key, kv, RandScalar(r, f.Key))
					if !n.MapIndex(kv).IsValid() {
						n.SetMapIndex(kv, reflect.New(fv.Type().Elem()).Elem())
						n.SetMapIndex(kv, reflect.Value{})
					}
				}
				fv.Set(n)
			}
			if f.Kind == Message {
				// in the order of the keys, for the same draws every time
				var ks []reflect.Value
				for _, e := range sortedMapKeys(fv, f) {
					ks = append(ks, e)
				}
				for _, k := range ks {
					if e := fv.MapIndex(k); !e.IsNil() {
						sprinkle(e.Elem(), f.Msg, r, depth-1)
					}
				}
			}
		case f.Card == Repeated || f.Card == Implicit && f.Kind == Bytes:
			switch {
			case fv.IsNil() && f.Card != Repeated && !f.NoPresence:
			case fv.IsNil() && r.P(500), !fv.IsNil() && r.P(400):
				n, spare := fv.Len(), r.Pick(0, 0, 1, 4, 20, 100, r.Intn(400))
				full := reflect.MakeSlice(fv.Type(), n+spare, n+spare)
				reflect.Copy(full, fv)
				for i := n; i < n+spare; i++ {
					e := full.Index(i)
					switch {
					case e.Kind() == reflect.Uint8:
						e.SetUint(uint64(r.Intn(256)))
					case f.Kind == Message:
						if i < n+20 && r.P(700) {
							x := reflect.New(f.Msg.Type)
							randMsg(r, x.Elem(), f.Msg, &ValOpts{Fill: 500, Budget: 4}, 0)
							e.Set(x)
						}
					default:
						Set(f.Kind, e, RandScalar(r, f.Kind))
					}
				}
				fv.Set(full.Slice(0, n))
			}
			if f.Card == Repeated && f.Kind == Message {
				for i := 0; i < fv.Len(); i++ {
					if e := fv.Index(i); !e.IsNil() {
						sprinkle(e.Elem(), f.Msg, r, depth-1)
					}
				}
			}
		case f.Kind == Message:
			if !fv.IsNil() {
				sprinkle(fv.Elem(), f.Msg, r, depth-1)
			}
		}
	}
}

func sortedMapKeys(m reflect.Value, f *Field) []reflect.Value {
	ks := m.MapKeys()
	by := map[string]reflect.Value{}
	var names []string
	for _, k := range ks {
		s := string(sortKey(f.Key, Get(f.Key, k)))
		by[s] = k
		names = append(names, s)
	}
	sortStrings(names)
	out := make([]reflect.Value, len(names))
	for i, n := range names {
		out[i] = by[n]
	}
	return out
}

func sortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// pad tells the fields that the generator of types adds and that are none of
// the library's.
func pad(f reflect.StructField) bool {
	return f.Tag == "" && len(f.Name) > 3 && f.Name[:3] == "Pad"
}

// Pads is a digest of the untagged fields of a struct.
func Pads(v reflect.Value) uint64 {
	h := imageSeed
	for i := 0; i < v.NumField(); i++ {
		if pad(v.Type().Field(i)) {
			x := v.Field(i)
			h = h.bytes(unsafe.Pointer(x.UnsafeAddr()), x.Type().Size())
		}
	}
	return uint64(h)
}

// Image is a digest of the exact memory of the message v points to and of all
// that it refers to, slices up to their capacity: every store changes it,
// also one that leaves the message equal.
func Image(v reflect.Value) uint64 {
	h := imageSeed
	t := v.Type().Elem()
	p := unsafe.Pointer(v.Pointer())
	h = h.bytes(p, t.Size())
	return uint64(h.deep(p, t))
}

type image uint64

const imageSeed = image(0xcbf29ce484222325)

func (h image) word(x uint64) image {
	h ^= image(x)
	h *= 0x9E3779B97F4A7C15
	return h ^ h>>29
}

func (h image) bytes(p unsafe.Pointer, n uintptr) image {
	b := unsafe.Slice((*byte)(p), int(n))
	for len(b) >= 8 {
		h = h.word(uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56)
		b = b[8:]
	}
	for _, c := range b {
		h = h.word(uint64(c))
	}
	return h.word(uint64(n))
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.String, reflect.Map, reflect.Struct, reflect.Interface:
		return false
	case reflect.Array:
		return flat(t.Elem())
	}
	return true
}

// deep adds what the words of a value refer to; the words are in already.
func (h image) deep(p unsafe.Pointer, t reflect.Type) image {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); !flat(f.Type) {
				h = h.deep(unsafe.Add(p, f.Offset), f.Type)
			}
		}
	case reflect.Ptr:
		if q := *(*unsafe.Pointer)(p); q != nil {
			h = h.bytes(q, t.Elem().Size())
			h = h.deep(q, t.Elem())
		}
	case reflect.String:
		s := *(*string)(p)
		for i := 0; i < len(s); i++ {
			h = h.word(uint64(s[i]))
		}
	case reflect.Slice:
		v := reflect.NewAt(t, p).Elem()
		if v.IsNil() {
			return h
		}
		e := t.Elem()
		q := unsafe.Pointer(v.Pointer())
		h = h.bytes(q, uintptr(v.Cap())*e.Size())
		if !flat(e) {
			for i := 0; i < v.Len(); i++ {
				h = h.deep(unsafe.Add(q, uintptr(i)*e.Size()), e)
			}
		}
	case reflect.Map:
		var sum uint64
		it := reflect.NewAt(t, p).Elem().MapRange()
		for it.Next() {
			x := imageSeed
			for _, y := range []reflect.Value{it.Key(), it.Value()} {
				c := reflect.New(y.Type())
				c.Elem().Set(y)
				q := unsafe.Pointer(c.Pointer())
				if y.Kind() != reflect.Struct {
					x = x.bytes(q, y.Type().Size())
				}
				x = x.deep(q, y.Type())
			}
			sum += uint64(x)
		}
		h = h.word(sum)
	}
	return h
}

package main

import (
	"reflect"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// specPool bounds the number of types a process creates: types made by
// reflect.StructOf are never freed.
func randSpec(r *ref.Rng) *ref.TSpec {
	rr := ref.NewRng(uint64(r.Intn(1500)) * 7919)
	return ref.RandSpec(rr, rr.Pick(0, 1, 1, 2), cat.All_)
}

func catSpec(name string) *ref.TSpec { return &ref.TSpec{Cat: name} }

func pickName(r *ref.Rng, names []string) *ref.TSpec { return catSpec(names[r.Intn(len(names))]) }

// randType draws a type: recursive, shared, mixed or random.
func randType(r *ref.Rng) *ref.TSpec {
	switch r.Intn(10) {
	case 0, 1:
		return pickName(r, cat.Recursive)
	case 2:
		return pickName(r, cat.Shared)
	case 3:
		return pickName(r, cat.Mixed)
	case 4:
		return pickName(r, cat.All_)
	}
	if r.P(15) {
		return chain(r)
	}
	return randSpec(r)
}

// chain draws a type with many levels of other types in it.
func chain(r *ref.Rng) *ref.TSpec {
	r = ref.NewRng(uint64(r.Intn(60)) * 6700417)
	t := ref.RandSpec(r, 0, nil)
	if len(t.F) > 6 {
		t.F = t.F[:6]
	}
	for i := r.Pick(5, 9, 17, 33, 70); i > 0; i-- {
		f := ref.FSpec{N: uint32(r.Pick(1, 3, 16)), K: "message", C: []string{"imp", "imp", "rep", "map"}[r.Intn(4)], Sub: t}
		if f.C == "map" {
			f.MK = []string{"int32", "string", "fixed64"}[r.Intn(3)]
		}
		o := ref.RandSpec(r, 0, nil).F[:1]
		o[0].N = uint32(r.Pick(2, 15, 2047))
		t = &ref.TSpec{F: []ref.FSpec{f, o[0]}}
	}
	return t
}

// randVal makes a random message of t.
func randVal(r *ref.Rng, t reflect.Type, o *ref.ValOpts) reflect.Value {
	v := reflect.New(t)
	if o == nil {
		o = ref.RandOpts(r)
	}
	ref.RandMsg(r, v.Elem(), o)
	return v
}

// smallOpts keeps messages small, where what matters is the schedule.
func smallOpts(r *ref.Rng) *ref.ValOpts {
	o := &ref.ValOpts{Fill: r.Pick(300, 600, 900), Big: r.Pick(0, 0, 0, 20), Depth: r.Pick(1, 2, 3), Budget: r.Pick(5, 12, 25)}
	if ref.HugeRate > 0 && r.Intn(2*ref.HugeRate) == 0 {
		o.Huge, o.Big = 1, 0
	}
	return o.Longs(r)
}

func (p *Plan) addVal(r *ref.Rng, t int, o *ref.ValOpts) int {
	v := randVal(r, p.typ(t), o)
	x := Val{T: t, B: ref.Canon(v)}
	if r.P(500) {
		x.S = r.U64()
	}
	p.Vals = append(p.Vals, x)
	return len(p.Vals) - 1
}

// tweak changes a field of a message so that its encoding is as long as before.
func tweak(r *ref.Rng, v reflect.Value) {
	var all []func()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if len(all) > 200 {
			return
		}
		add := func(f func()) { all = append(all, f) }
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			if v.Type().Key().Kind() == reflect.Int32 && v.Type().Elem().Kind() == reflect.Ptr {
				for k := int64(-1); k < 4; k++ {
					if e := v.MapIndex(reflect.ValueOf(k).Convert(v.Type().Key())); e.IsValid() {
						walk(e)
					}
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len() && i < 20; i++ {
					walk(v.Index(i))
				}
			} else if n := v.Len(); n != 0 && v.CanSet() {
				add(func() {
					b := append([]byte(nil), v.Bytes()...)
					b[r.Intn(n)] ^= 1
					v.SetBytes(b)
				})
			}
		case reflect.String:
			if n := v.Len(); n != 0 && v.CanSet() {
				add(func() {
					b := []byte(v.String())
					if i := r.Intn(n); b[i] < 0x80 {
						b[i] ^= 1
					}
					v.SetString(string(b))
				})
			}
		case reflect.Int32, reflect.Int64:
			if x := v.Int(); x != 0 && v.CanSet() {
				add(func() {
					if x == 1 {
						x = 2
					}
					v.SetInt(x ^ 1)
				})
			}
		case reflect.Uint32, reflect.Uint64:
			if x := v.Uint(); x != 0 && v.CanSet() {
				add(func() {
					if x == 1 {
						x = 2
					}
					v.SetUint(x ^ 1)
				})
			}
		case reflect.Float32, reflect.Float64:
			if x := v.Float(); x != 0 && v.CanSet() {
				add(func() { v.SetFloat(-x) })
			}
		}
	}
	walk(v)
	if len(all) > 0 {
		all[r.Intn(len(all))]()
	}
}

// again adds a call like an earlier one with the same memory and other contents.
func (p *Plan) again(r *ref.Rng) {
	var c []int
	for i := range p.Ops {
		if o := &p.Ops[i]; o.D == 1 {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return
	}
	i := c[len(c)-1-r.Intn(r.Intn(len(c))+1)]
	o := p.Ops[i]
	switch o.K {
	case "marshal", "size":
		m := p.msg(o.V)
		if !r.P(100) {
			tweak(r, m)
		}
		p.Vals = append(p.Vals, Val{T: o.T, B: ref.Canon(m), S: p.Vals[o.V].S})
		o.V = len(p.Vals) - 1
		if r.P(200) {
			o.K = []string{"marshal", "size"}[r.Intn(2)]
		}
	default:
		if len(o.B) == 0 {
			return
		}
		b := append(Hex(nil), o.B...)
		for n := r.Intn(3); n >= 0; n-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		o.B = b
	}
	p.Ops = append(p.Ops, o)
}

// randNoise draws a mix of equivalent wire forms.
func randNoise(r *ref.Rng) *ref.Noise {
	n := &ref.Noise{R: r}
	if r.P(250) {
		return n
	}
	on := func(p *int, v ...int) {
		if r.P(500) {
			*p = r.Pick(v...)
		}
	}
	on(&n.Shuffle, 500, 1000)
	on(&n.PadVarint, 30, 200)
	on(&n.Split, 100, 500)
	on(&n.Defaults, 200, 800)
	on(&n.Overwrite, 100, 400)
	on(&n.Unknown, 50, 300)
	on(&n.EntrySwap, 300)
	on(&n.EntryOmit, 500, 1000)
	on(&n.Neg32, 500)
	return n
}

var noiseNames = []string{"field_reorder", "padded_varint", "split_submessage", "explicit_default", "overwritten_value", "unknown_field", "entry_swap", "entry_default_omitted", "neg32_short"}

func countNoise(st *Stats, n *ref.Noise) {
	for i, c := range n.Count {
		st.add("wire_"+noiseNames[i], c)
	}
}

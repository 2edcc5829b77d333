package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// C20: the work of a call stays in proportion to its input or message. Work is
// counted: statements of the library executed, and bytes allocated. Nothing is
// compared with a fixed price; a call is compared with the calls on the parts
// that its input is made of, with the same call on less nested data, and with
// the same call made earlier.

// pack puts blocks into one byte string.
func pack(bs [][]byte) []byte {
	var b []byte
	for _, x := range bs {
		b = binary.AppendUvarint(b, uint64(len(x)))
		b = append(b, x...)
	}
	return b
}

// unpack takes the blocks out again, whatever a minimiser has done to them.
func unpack(b []byte) (bs [][]byte) {
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		if k <= 0 {
			return
		}
		b = b[k:]
		if n > uint64(len(b)) {
			n = uint64(len(b))
		}
		bs = append(bs, b[:n:n])
		b = b[n:]
	}
	return
}

// nest puts b into the fields of a path.
func nest(b []byte, t reflect.Type, path []int64) []byte {
	m := ref.Desc(t)
	var fs []*ref.Field
	for _, n := range path {
		f := m.ByNum[uint32(n)]
		if f == nil || f.Msg == nil {
			break
		}
		fs = append(fs, f)
		m = f.Msg
	}
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].Card == ref.Map {
			b = lenField(nil, 2, b)
		}
		b = lenField(nil, fs[i].Num, b)
	}
	return b
}

// inner is the type at the end of a path.
func inner(t reflect.Type, path []int64) reflect.Type {
	m := ref.Desc(t)
	for _, n := range path {
		f := m.ByNum[uint32(n)]
		if f == nil || f.Msg == nil {
			break
		}
		m = f.Msg
	}
	return m.Type
}

// cycle finds a way from a message type back to itself.
func cycle(r *ref.Rng, t reflect.Type) []int64 {
	type way struct {
		m    *ref.Msg
		path []int64
	}
	start := ref.Desc(t)
	seen := map[*ref.Msg]bool{}
	list := []way{{start, nil}}
	var found [][]int64
	for len(list) > 0 && len(found) < 8 {
		w := list[0]
		list = list[1:]
		for _, f := range msgFields(w.m) {
			p := append(append([]int64(nil), w.path...), int64(f.Num))
			if f.Msg == start {
				found = append(found, p)
			} else if !seen[f.Msg] {
				seen[f.Msg] = true
				list = append(list, way{f.Msg, p})
			}
		}
	}
	if len(found) == 0 {
		return nil
	}
	return found[r.Intn(len(found))]
}

func genWork(r *ref.Rng, p *Plan) {
	p.Tasks = 1
	p.Sched = Sched{Seed: r.U64(), MapSeed: r.U64(), PPoolMiss: r.Pick(0, 0, 50, 300), PPoolAlt: r.Pick(0, 0, 300)}
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			p.genConcat(r)
		case 4, 5, 6:
			p.genDepth(r)
		default:
			if r.P(150) {
				p.Types = append(p.Types, catSpec("Node"))
				p.Ops = append(p.Ops, Op{K: "first", T: len(p.Types) - 1, V: r.Intn(len(cat.Wide)), D: r.Intn(nCalls)})
				break
			}
			p.genCalls(r)
		}
	}
}

func (p *Plan) genConcat(r *ref.Rng) {
	t := len(p.Types)
	p.Types = append(p.Types, randType(r))
	o := Op{K: "concat", T: t}
	m := ref.Desc(p.typ(t))
	for k := r.Pick(0, 0, 1, 1, 2, 3); k > 0; k-- {
		fs := msgFields(m)
		if len(fs) == 0 {
			break
		}
		f := fs[r.Intn(len(fs))]
		o.A = append(o.A, int64(f.Num))
		m = f.Msg
	}
	n := r.Pick(1, 2, 6, 20, 60)
	total := 0
	var bs [][]byte
	kind := r.Intn(10)
	if r.P(150) {
		// one field, thousands of times, with other contents each time
		n, kind = r.Pick(1000, 3000, 10000, 20000), 100
	}
	var one *ref.Field
	if len(m.Fields) > 0 {
		one = m.Fields[r.Intn(len(m.Fields))]
		for i := 0; i < 4 && one.Card != ref.Map; i++ {
			one = m.Fields[r.Intn(len(m.Fields))]
		}
	}
	for i := 0; i < n && total < 150000; i++ {
		var b []byte
		switch {
		case kind == 100 && one != nil:
			b = occurrence(r, one)
		case kind == 100:
			b = ref.AppendVarint(ref.AppendVarint(nil, uint64(1+i)<<3), r.U64()>>50)
		case kind < 4:
			v := randVal(r, m.Type, smallOpts(r))
			b = ref.Encode(v.Elem(), randNoise(r))
		case kind < 6:
			b = amplifyOne(r, m)
		case kind < 7:
			b = ref.RawField(r, &ref.Noise{R: r}, uint32(r.Pick(1, 2, 15, 1000, 1<<29-1)))
		default:
			// one field of a random message, on its own
			v := randVal(r, m.Type, smallOpts(r))
			e := ref.Encode(v.Elem(), nil)
			raw, st := ref.Scan(e)
			if st == ref.OK && len(raw) > 0 {
				x := raw[r.Intn(len(raw))]
				b = e[x.Start:x.End]
			}
		}
		if len(b) == 0 {
			b = amplifyOne(r, m)
		}
		bs = append(bs, b)
		total += len(b)
	}
	o.B = pack(bs)
	max := r.Pick(1, 10, 100, 1000, 30000)
	if lim := 150000 / (total + 1); max > lim {
		max = lim
	}
	if max*len(bs) > 40000 {
		max = 40000 / len(bs)
	}
	if max < 1 {
		max = 1
	}
	o.V = max
	if r.P(150) {
		o.D = r.Pick(1, 2, 4, 6) // the end is missing or damaged
	}
	p.Ops = append(p.Ops, o)
}

// amplifyOne is one occurrence of one field, short.
func amplifyOne(r *ref.Rng, m *ref.Msg) []byte {
	if len(m.Fields) == 0 {
		return []byte{8, byte(r.Intn(128))}
	}
	return occurrence(r, m.Fields[r.Intn(len(m.Fields))])
}

func occurrence(r *ref.Rng, f *ref.Field) []byte {
	switch {
	case f.Card == ref.Map:
		// keys that differ
		var e []byte
		k := r.U64()
		switch f.Key.Wire() {
		case 0:
			e = ref.AppendVarint([]byte{8}, uint64(r.Intn(1<<20)))
		case 1:
			e = binary.LittleEndian.AppendUint64([]byte{9}, k)
		case 5:
			e = binary.LittleEndian.AppendUint32([]byte{13}, uint32(k))
		case 2:
			e = lenField(nil, 1, r.Text(1+r.Intn(8)))
		}
		return lenField(nil, f.Num, e)
	case f.Kind.Wire() == 2:
		return lenField(nil, f.Num, nil)
	case f.Kind.Wire() == 0:
		return append(ref.AppendVarint(nil, uint64(f.Num)<<3), byte(r.Intn(2)))
	}
	b := ref.AppendVarint(nil, uint64(f.Num)<<3|uint64(f.Kind.Wire()))
	return append(b, make([]byte, []int{1, 8, 0, 0, 0, 4}[f.Kind.Wire()])...)
}

func (p *Plan) genDepth(r *ref.Rng) {
	t := len(p.Types)
	var path []int64
	var s *ref.TSpec
	for i := 0; i < 20 && path == nil; i++ {
		s = pickName(r, cat.Recursive)
		path = cycle(r, s.Type())
	}
	if path == nil {
		return
	}
	p.Types = append(p.Types, s)
	o := Op{K: "depth", T: t, A: path, V: r.Pick(2, 5, 12, 25)}
	if lim := 300 / len(path); o.V > lim/8 {
		o.V = lim / 8
	}
	if o.V < 2 {
		o.V = 2
	}
	if r.P(500) {
		v := randVal(r, s.Type(), &ref.ValOpts{Fill: 300, Depth: 1, Budget: 4})
		o.B = ref.Encode(v.Elem(), nil)
		if len(o.B) > 40 {
			o.B = o.B[:0]
		}
	}
	if r.P(300) {
		o.D = r.Pick(1, 2, 4, 6)
	}
	p.Ops = append(p.Ops, o)
}

func (p *Plan) genCalls(r *ref.Rng) {
	t := len(p.Types)
	p.Types = append(p.Types, randType(r))
	o := Op{K: "calls", T: t, V: r.Pick(20, 100, 300)}
	v := randVal(r, p.typ(t), smallOpts(r))
	o.B = ref.Encode(v.Elem(), nil)
	o.A = []int64{int64(r.U64() >> 1)}
	if r.P(400) {
		// other types come into use
		o.A = append(o.A, int64(r.Pick(5, 20, 70, 200, 400)), int64(r.Intn(2)))
		o.V /= 10
	}
	p.Ops = append(p.Ops, o)
}

// price is what a call cost.
type price struct {
	steps, alloc, moved uint64
	bad                 string
}

func (a *price) add(b price, n int) {
	a.steps += b.steps * uint64(n)
	a.alloc += b.alloc * uint64(n)
	a.moved += b.moved * uint64(n)
	if a.bad == "" {
		a.bad = b.bad
	}
}

func (a *price) max(b price) {
	if b.steps > a.steps {
		a.steps = b.steps
	}
	if b.alloc > a.alloc {
		a.alloc = b.alloc
	}
	if b.moved > a.moved {
		a.moved = b.moved
	}
	if a.bad == "" {
		a.bad = b.bad
	}
}

func priced(st *Stats, f func() result) (price, result) {
	st.Calls++
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a) // exact, unlike runtime/metrics
	m := simrt.Moved()
	simrt.Resume()
	r := f()
	simrt.Pause()
	runtime.ReadMemStats(&b)
	st.digest([]byte(fmt.Sprint(r.steps, r.size, len(r.out), errClass(r.err))))
	return price{r.steps, b.TotalAlloc - a.TotalAlloc, simrt.Moved() - m, r.panicked}, r
}

// the three calls, in this order
const (
	unmarshalling = iota
	sizing
	marshalling
	nCalls
)

var callNames = [nCalls]string{"Unmarshal", "Size", "Marshal"}

// through takes b through all three calls.
func through(st *Stats, t reflect.Type, b []byte) (c [nCalls]price) {
	v := reflect.New(t)
	c[unmarshalling], _ = priced(st, func() result { return doUnmarshal(b, v.Interface()) })
	c[sizing], _ = priced(st, func() result { return doSize(v.Interface()) })
	c[marshalling], _ = priced(st, func() result { return doMarshal(v.Interface()) })
	return
}

// costlier tells whether the cost c is more than factor times w and some.
func costlier(st *Stats, what string, c, w price, factor uint64, steps, alloc uint64) string {
	if c.bad != "" {
		return c.bad
	}
	if w.bad != "" {
		return w.bad
	}
	if workSeen != nil {
		workSeen(what, c, w, factor, steps, alloc)
	}
	if lim := factor*w.steps + steps; c.steps > lim {
		return fmt.Sprintf("%d statements were executed, more than %d", c.steps, lim)
	}
	if lim := factor*w.alloc + alloc; c.alloc > lim {
		return fmt.Sprintf("%d bytes were allocated, more than %d", c.alloc, lim)
	}
	if lim := factor*w.moved + alloc; c.moved > lim {
		return fmt.Sprintf("%d elements were copied (by copy or append), more than %d", c.moved, lim)
	}
	return ""
}

// workSeen is set to measure.
var workSeen func(what string, c, w price, factor, steps, alloc uint64)

// broken is what makes the innermost message no message.
func broken(d int) []byte {
	switch d {
	case 2:
		return []byte{0xff} // a tag that is cut off
	case 4:
		return []byte{0xc2, 0x3e, 5, 1} // a field that is too short
	case 6:
		return []byte{0xc7, 0x3e} // no such wire type
	}
	return nil
}

func cutEnd(b []byte, n int) []byte {
	if n > len(b) {
		n = len(b)
	}
	return b[:len(b)-n]
}

func runWork(p *Plan, st *Stats) *Violation {
	resetWorld()
	var vio *Violation
	fn := func() {
		simrt.Pause()
		defer simrt.Resume()
		for i := range p.Ops {
			o := &p.Ops[i]
			t := p.typ(o.T)
			// what the first use of a type needs is not the input's doing
			for k := 0; k < 2; k++ {
				through(st, t, nil)
			}
			var w string
			switch o.K {
			case "concat":
				w = p.concat(st, o, t)
			case "depth":
				w = p.depth(st, o, t)
			case "calls":
				w = p.calls(st, o, t)
			case "first":
				w = p.first(st, o)
			}
			if w != "" {
				vio = violf("work", "operation %d (%s): %s", i, p.Types[o.T], w)
				return
			}
		}
	}
	r := p.sched(st, 2*isolatedCap, 3000, []func(){fn})
	if v := schedViolation(&r); v != nil {
		return v
	}
	if len(p.Ops) == 0 {
		st.trivial = true
	}
	return vio
}

// concat: a message in many pieces costs what its pieces cost, and what its
// eighths cost.
func (p *Plan) concat(st *Stats, o *Op, t reflect.Type) string {
	bs := unpack(o.B)
	if len(bs) == 0 || o.V < 1 {
		return ""
	}
	n := o.V * len(bs)
	join := func(i, n int) []byte {
		var all []byte
		for ; i < n; i++ {
			all = append(all, bs[i%len(bs)]...)
		}
		return nest(append(all, broken(o.D)...), t, o.A)
	}
	in := cutEnd(join(0, n), o.D&1)
	st.add("pieces", n)
	st.add("bytes", len(in))
	c := through(st, t, in)
	check := func(ref [nCalls]price, factor uint64, what string) string {
		for k := range c {
			if w := costlier(st, what, c[k], ref[k], factor, 3000, 1<<17+16*uint64(len(in))); w != "" {
				return fmt.Sprintf("%s of %d bytes in %d pieces (path %v): %s; %s took %d statements and %d bytes\n  pieces: %x", callNames[k], len(in), n, o.A, w, what, ref[k].steps, ref[k].alloc, trunc(o.B, 200))
			}
		}
		return ""
	}
	if len(bs) <= 100 {
		var parts [nCalls]price
		for _, b := range bs {
			c := through(st, t, nest(b, t, o.A))
			for k := range parts {
				parts[k].add(c[k], o.V)
			}
		}
		if w := check(parts, 3, "its pieces, one by one"); w != "" {
			return w
		}
	}
	if n >= 64 {
		var parts [nCalls]price
		for k := 0; k < 8; k++ {
			c := through(st, t, join(n*k/8, n*(k+1)/8))
			for k := range parts {
				parts[k].add(c[k], 1)
			}
		}
		return check(parts, 3, "the eight eighths of it, one by one,")
	}
	return ""
}

// tower nests b d times.
func tower(t reflect.Type, path []int64, b []byte, d int, end []byte) []byte {
	x := append(append([]byte(nil), b...), end...)
	for ; d > 0; d-- {
		x = append(append([]byte(nil), b...), nest(x, t, path)...)
	}
	return x
}

// depth: eight times the depth costs eight times as much, and to encode at
// most 64 times as much.
func (p *Plan) depth(st *Stats, o *Op, t reflect.Type) string {
	if len(o.A) == 0 || o.V < 1 || o.V > 100 || inner(t, o.A) != t {
		return ""
	}
	a := cutEnd(tower(t, o.A, o.B, o.V, broken(o.D)), o.D&1)
	b := cutEnd(tower(t, o.A, o.B, 8*o.V, broken(o.D)), o.D&1)
	ca := through(st, t, a)
	cb := through(st, t, b)
	st.add("levels", 8*o.V*len(o.A))
	for k := range ca {
		factor := uint64(3 * 8)
		if k == marshalling {
			factor = 3 * 64
		}
		if w := costlier(st, "depth", cb[k], ca[k], factor, 3000, 1<<17+16*uint64(len(b))); w != "" {
			return fmt.Sprintf("%s of a message of %d levels (%d bytes, path %v): %s; of %d levels it took %d statements and %d bytes\n  each level holds %x", callNames[k], 8*o.V, len(b), o.A, w, o.V, ca[k].steps, ca[k].alloc, []byte(o.B))
		}
	}
	return ""
}

// calls: what a call costs does not depend on how many came before it.
func (p *Plan) calls(st *Stats, o *Op, t reflect.Type) string {
	if len(o.A) == 0 {
		return ""
	}
	probe := func() (c [nCalls]price) {
		for k := 0; k < 6; k++ {
			x := through(st, t, o.B)
			for i := range x {
				c[i].max(x[i])
			}
		}
		return
	}
	before := probe()
	r := ref.NewRng(uint64(o.A[0]))
	for k := 0; k < o.V; k++ {
		v := randVal(r, t, smallOpts(r))
		b := ref.Encode(v.Elem(), nil)
		if r.P(300) {
			b, _ = damage(r, b)
		}
		if r.P(20) && len(b) > 0 && len(b) < 2000 {
			for len(b) < 150000 {
				b = append(b, b...)
			}
		}
		w := reflect.New(t)
		simrt.Resume()
		doUnmarshal(b, w.Interface())
		doSize(w.Interface())
		doMarshal(w.Interface())
		simrt.Pause()
		st.Calls += 3
	}
	if len(o.A) > 1 {
		again := len(o.A) > 2 && o.A[2] != 0
		if again {
			// this type comes after the others
			resetWorld()
		}
		for k := o.A[1]; k > 0; k-- {
			w := reflect.New(randType(r).Type())
			simrt.Resume()
			doMarshal(w.Interface())
			simrt.Pause()
			st.Calls++
		}
		if again {
			through(st, t, nil)
			through(st, t, nil)
		}
		st.add("types_between", int(o.A[1]))
	}
	st.add("calls_between", 3*o.V)
	after := probe()
	others := ""
	if len(o.A) > 1 {
		others = fmt.Sprintf(" and the use of %d other types", o.A[1])
	}
	for k := range after {
		if w := costlier(st, "calls", after[k], before[k], 2, 200, 1<<14); w != "" {
			return fmt.Sprintf("%s after %d other calls%s: %s; before them it took %d statements and %d bytes\n  input: %x", callNames[k], 3*o.V, others, w, before[k].steps, before[k].alloc, trunc(o.B, 200))
		}
	}
	return ""
}

// first: the first use of a type costs what the types below it cost, however
// many ways lead to them.
func (p *Plan) first(st *Stats, o *Op) string {
	if o.V >= len(cat.Wide) {
		return ""
	}
	var c [2]price
	for i, t := range cat.Wide[o.V] {
		resetWorld()
		v := reflect.New(t)
		c[i], _ = priced(st, func() result {
			switch o.D {
			case unmarshalling:
				return doUnmarshal([]byte{8, 1}, v.Interface())
			case sizing:
				return doSize(v.Interface())
			}
			return doMarshal(v.Interface())
		})
		c[i].bad = "" // some are rejected
	}
	st.add("first_uses", 2)
	if w := costlier(st, "first", c[1], c[0], 3*16, 3000, 1<<17); w != "" {
		return fmt.Sprintf("the first %s of %v, with 24 types: %s; of %v, with 6 types, %d statements and %d bytes", callNames[o.D], cat.Wide[o.V][1], w, cat.Wide[o.V][0], c[0].steps, c[0].alloc)
	}
	return ""
}

func init() {
	scenarios["C20"] = &scenario{gen: genWork, run: runWork,
		rule: "a seed draws 1-3 tests of: up to 40000 pieces (encodings of messages, single fields, unknown fields, some of them nested in other messages or cut short) decoded in one input and one by one; a recursive type nested up to 200 levels (300 messages) and an eighth of that; the same calls before and after up to 900 others and the use of up to 400 other types; the first use of 6 and of 24 types that refer to each other in many ways; statements executed and bytes allocated by Unmarshal, Size and Marshal are compared; distinct by the statement counts and results"}
}

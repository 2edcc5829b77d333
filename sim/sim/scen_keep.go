package main

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"
	"weak"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
	simsync "github.com/RomiChan/protobuf/verifsim/simsync"
)

// C19: what callers drop is reclaimed, and repeated calls need no more memory.

func genKeep(r *ref.Rng, p *Plan) {
	if r.P(500) {
		relatedTypes(r, p, 1+r.Intn(4))
	} else {
		concurrentTypes(r, p)
	}
	p.Tasks = r.Pick(1, 1, 2, 3)
	bad := r.Pick(0, 0, 150, 400)
	for n := 1 + r.Intn(r.Pick(4, 8, 16)); n > 0; n-- {
		if r.P(bad) {
			p.badOp(r, r.Intn(p.Tasks))
			continue
		}
		p.goodOp(r, r.Intn(p.Tasks), r.Intn(len(p.Types)))
	}
	if p.Tasks == 1 {
		p.Sched = Sched{Seed: r.U64(), MapSeed: r.U64(), PPoolMiss: r.Pick(0, 0, 100, 500), PPoolAlt: r.Pick(0, 300), PPoolDrop: r.Pick(0, 0, 20)}
	} else {
		p.Sched = randSched(r, p.Tasks)
	}
}

// watch is an object that the caller is about to drop.
type watch struct {
	p    weak.Pointer[byte]
	op   int
	what string
}

type watcher struct {
	op  int
	all []watch
}

func (w *watcher) add(p unsafe.Pointer, what string) {
	w.all = append(w.all, watch{weak.Make((*byte)(p)), w.op, what})
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.String, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return false
}

// value watches what v refers to. Small objects without pointers share their
// memory with others and are left out.
func (w *watcher) value(v reflect.Value, what string, depth int) {
	if depth == 0 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if t := v.Type().Elem(); t.Size() >= 16 || t.Size() > 0 && hasPointers(t) {
			w.add(v.UnsafePointer(), what+": "+t.String())
		}
		w.value(v.Elem(), what, depth-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.value(v.Field(i), what+"."+v.Type().Field(i).Name, depth)
		}
	case reflect.Slice:
		t := v.Type().Elem()
		if uintptr(v.Cap())*t.Size() >= 16 || v.Cap() > 0 && hasPointers(t) {
			w.add(v.UnsafePointer(), what+": elements")
		}
		if hasPointers(t) {
			for i := 0; i < v.Len(); i++ {
				w.value(v.Index(i), what+"[]", depth-1)
			}
		}
	case reflect.String:
		if v.Len() >= 16 {
			s := v.String()
			w.add(*(*unsafe.Pointer)(unsafe.Pointer(&s)), what+": text")
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		w.add(v.UnsafePointer(), what+": map")
		if hasPointers(v.Type().Key()) || hasPointers(v.Type().Elem()) {
			for it := v.MapRange(); it.Next(); {
				w.value(it.Key(), what+" key", depth-1)
				w.value(it.Value(), what+" value", depth-1)
			}
		}
	}
}

// vary changes the contents of a message from round to round, so that nothing
// that is kept by content is found again.
func vary(v reflect.Value, round, depth int) {
	if round == 0 || depth == 0 || !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			vary(v.Elem(), round, depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vary(v.Field(i), round, depth)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vary(v.Index(i), round, depth-1)
		}
	case reflect.String:
		if v.Len() > 0 {
			b := []byte(v.String())
			for i := range b {
				b[i] = 'a' + byte((round>>(uint(i)%6)+i)%26)
			}
			v.SetString(string(b))
		}
	case reflect.Int32, reflect.Int64:
		if v.Int() != 0 {
			v.SetInt(int64(round) * 1237)
		}
	case reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			v.SetUint(uint64(round) * 1237)
		}
	case reflect.Map:
		if v.Len() == 0 || v.Type().Key().Kind() != reflect.String {
			return
		}
		k := reflect.New(v.Type().Key()).Elem()
		k.SetString(fmt.Sprintf("key of round %d", round))
		for it := v.MapRange(); it.Next(); {
			v.SetMapIndex(k, it.Value())
			break
		}
	}
}

func (w *watcher) bytes(b []byte, what string) {
	if cap(b) >= 16 {
		w.add(*(*unsafe.Pointer)(unsafe.Pointer(&b)), what)
	}
}

// use performs an operation with arguments of its own and drops them and the
// result. The harness may keep errors, as callers do.
func (p *Plan) use(o *Op, w *watcher, round int) (kept interface{}) {
	look := func(v reflect.Value, what string) {
		if w != nil {
			simrt.Pause()
			w.value(v, what, 30)
			simrt.Resume()
		}
	}
	buf := func(b []byte, what string) {
		if w != nil {
			w.bytes(b, what)
		}
	}
	var r result
	switch o.K {
	case "marshal":
		m := p.msg(o.V)
		vary(m.Elem(), round, 20)
		look(m, "the message encoded")
		r = doMarshal(m.Interface())
		buf(r.out, "the result of Marshal")
	case "size":
		m := p.msg(o.V)
		vary(m.Elem(), round, 20)
		look(m, "the message measured")
		r = doSize(m.Interface())
	case "unmarshal", "umerge":
		d := reflect.New(p.typ(o.T))
		if o.K == "umerge" {
			d = p.msg(o.V)
			look(d, "the destination")
		}
		b := append([]byte(nil), o.B...)
		if round > 0 {
			simrt.Pause()
			if v, s := ref.Decode(p.typ(o.T), o.B); s == ref.OK && round%4 != 0 {
				vary(v.Elem(), round, 20)
				b = ref.Encode(v.Elem(), nil)
			} else if len(b) > 0 {
				b[round*31%len(b)] ^= byte(round)
			}
			simrt.Resume()
		}
		buf(b, "the input")
		r = doUnmarshal(b, d.Interface())
		look(d, "the message decoded")
	case "bad-marshal":
		d := badValue(o)
		look(d, "the rejected message")
		r = doMarshal(d.Interface())
	case "bad-size":
		d := badValue(o)
		look(d, "the rejected message")
		r = doSize(d.Interface())
	case "bad-unmarshal":
		d := badValue(o)
		look(d, "the rejected message")
		b := append([]byte(nil), o.B...)
		buf(b, "the input")
		r = doUnmarshal(b, d.Interface())
	case "arg":
		_, r = argOp(o)
	}
	return r.err
}

// liveObjects counts the objects that are left after everything was reclaimed
// that can be.
func liveObjects() (n, size uint64) {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapObjects, m.HeapAlloc
}

const keepRounds = 48

func runKeep(p *Plan, st *Stats) *Violation {
	resetWorld()
	simsync.DropPools()
	simsync.TrackPools(true)
	defer simsync.TrackPools(false)
	const opCap = 30000000
	ws := make([]watcher, p.Tasks)
	fns := make([]func(), p.Tasks)
	for t := range fns {
		t := t
		fns[t] = func() {
			for i := range p.Ops {
				if o := &p.Ops[i]; o.Task == t {
					ws[t].op = i
					p.use(o, &ws[t], 0)
				}
			}
		}
	}
	r := p.sched(st, opCap, 20000, fns)
	st.Calls += int64(len(p.Ops))
	if v := schedViolation(&r); v != nil {
		return v
	}
	simsync.DropPools()
	runtime.GC()
	runtime.GC()
	for t := range ws {
		st.add("objects_dropped", len(ws[t].all))
		for _, x := range ws[t].all {
			if x.p.Value() != nil {
				return violf("retained", "operation %d (%s): %s is still alive after its caller dropped it", x.op, p.opName(&p.Ops[x.op]), x.what)
			}
		}
	}
	ws = nil

	// the same calls again and again
	var left, no int
	round := func() *Violation {
		no++
		r := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed, OpCap: opCap}, []func(){func() {
			for i := range p.Ops {
				p.use(&p.Ops[i], nil, no)
			}
		}})
		st.Steps += r.Steps
		st.Calls += int64(len(p.Ops))
		left += r.Left
		return schedViolation(&r)
	}
	for i := 0; i < 3; i++ {
		if v := round(); v != nil {
			return v
		}
	}
	simsync.DropPools()
	left = 0
	n0, b0 := liveObjects()
	for i := 0; i < keepRounds; i++ {
		if v := round(); v != nil {
			return v
		}
	}
	simsync.DropPools()
	n1, b1 := liveObjects()
	st.add("rounds", keepRounds)
	if left >= keepRounds {
		return violf("tasks", "after %d rounds of the same calls, %d goroutines that the library started were still there", keepRounds, left)
	}
	if n1 > n0+keepRounds*3/4 && b1 > b0+keepRounds*8 {
		return violf("growth", "%d rounds of the same %d calls left %d more objects (%d bytes) behind", keepRounds, len(p.Ops), n1-n0, b1-b0)
	}
	if n1 > n0 {
		st.add("noise_objects", int(n1-n0))
	}
	st.digest([]byte(fmt.Sprint(p.Types, len(p.Ops))))
	return nil
}

func init() {
	scenarios["C19"] = &scenario{gen: genKeep, run: runKeep,
		rule: "a seed draws 1-6 related types and 1-16 calls (encodings, decodings of intact and damaged bytes, merges, rejected types and arguments) in 1-3 tasks; all objects that a call got or gave are watched and dropped, and after all calls, a loss of all pools and a collection none may be alive; then the same calls are repeated 48 times and the number of live objects must not grow with them; distinct by the schedule and its calls"}
}

package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"syscall"
	"unsafe"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// A world is a set of nodes (tasks). Each owns slots: message variables that
// it decodes into, encodes, recycles and changes. Next to every message stands
// the model's idea of its contents. Everything that the library has returned
// stays alive and is compared again and again.

type slot struct {
	t     int
	v     reflect.Value // the library's message (pointer)
	m     reflect.Value // the model's message (pointer)
	canon []byte        // of m
	bad   bool          // a decode failed: the contents are whatever they are
	busy  bool
	pre   *[4]uint64
	post  *[4]uint64
	tails []tail_
}

// tail_ is memory behind the capacity of a slice in a destination.
type tail_ struct {
	full reflect.Value // slice over all of it
	n    int           // capacity given to the destination
	want []byte
}

type outBuf struct {
	b    []byte
	snap []byte
	cap_ []byte // spare capacity
}

type world struct {
	p     *Plan
	st    *Stats
	slots []*slot
	outs  []*outBuf
	bufs  map[int][]byte // reused buffers of the nodes
	vio   *Violation

	// what to look at
	everything        bool // compare all live objects after every operation
	wantEOF           bool // failing input must be reported as cut short
	alloc             bool // bound the memory allocated by a decode
	strict            bool // bytes that are no message must be reported
	canary            bool
	maxLen            int
	nOK, nFail, nMism int
	warm              map[reflect.Type]bool
}

func newWorld(p *Plan, st *Stats) *world {
	return &world{p: p, st: st, bufs: map[int][]byte{}, warm: map[reflect.Type]bool{}}
}

func (w *world) fail(class, f string, a ...interface{}) {
	if w.vio == nil {
		w.vio = violf(class, f, a...)
	}
}

// fresh gives slot s a new message with the contents of value v (or none).
func (w *world) fresh(s *slot, v int) {
	t := w.p.typ(s.t)
	s.tails = nil
	s.pre, s.post = nil, nil
	if w.canary {
		wt := wrapper(t)
		x := reflect.New(wt)
		s.v = x.Elem().Field(1).Addr()
		s.pre = x.Elem().Field(0).Addr().Interface().(*[4]uint64)
		s.post = x.Elem().Field(2).Addr().Interface().(*[4]uint64)
		for i := range s.pre {
			s.pre[i], s.post[i] = canaryWord, canaryWord
		}
	} else {
		s.v = reflect.New(t)
	}
	s.bad = false
	if v >= 0 {
		if st := ref.Merge(w.p.Vals[v].B, s.v.Elem()); st != ref.OK {
			panic("plan: value")
		}
		w.p.represent(v, s.v)
	}
	if w.canary && v >= 0 {
		w.tighten(s, s.v.Elem(), ref.Desc(t), 2)
	}
	w.sync(s)
}

const canaryWord = 0xC0FFEE5AC0FFEE5A

var wrappers = map[reflect.Type]reflect.Type{}

func wrapper(t reflect.Type) reflect.Type {
	if x := wrappers[t]; x != nil {
		return x
	}
	c := reflect.TypeOf([4]uint64{})
	x := reflect.StructOf([]reflect.StructField{{Name: "Pre", Type: c}, {Name: "M", Type: t}, {Name: "Post", Type: c}})
	wrappers[t] = x
	return x
}

// tighten gives the slices of a message a capacity that ends in the middle of
// an array, and remembers what is behind.
func (w *world) tighten(s *slot, v reflect.Value, m *ref.Msg, depth int) {
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		switch {
		case f.Kind == ref.Message && f.Card == ref.Implicit:
			if depth > 0 && !fv.IsNil() {
				w.tighten(s, fv.Elem(), f.Msg, depth-1)
			}
		case f.Card == ref.Repeated || f.Card == ref.Implicit && f.Kind == ref.Bytes:
			n := fv.Len()
			if n == 0 {
				continue
			}
			spare := n % 3
			full := reflect.MakeSlice(fv.Type(), n+spare+3, n+spare+3)
			reflect.Copy(full, fv)
			for i := n; i < full.Len(); i++ {
				sentinel(full.Index(i))
			}
			tl := tail_{full: full, n: n + spare}
			tl.want = tl.bytes()
			s.tails = append(s.tails, tl)
			fv.Set(full.Slice3(0, n, n+spare))
		}
	}
}

func sentinel(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int32, reflect.Int64:
		v.SetInt(0x5A5A5A5A)
	case reflect.Uint8:
		v.SetUint(0x5A)
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(0xA5A5A5A5)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(12345)
	case reflect.String:
		v.SetString("sentinel")
	case reflect.Slice:
		v.SetBytes([]byte("sentinel"))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
	}
}

// bytes is the raw memory behind the capacity.
func (t *tail_) bytes() []byte {
	e := t.full.Type().Elem().Size()
	if e == 0 {
		return nil
	}
	p := unsafe.Pointer(t.full.Pointer())
	lo, hi := uintptr(t.n)*e, uintptr(t.full.Len())*e
	var o []byte
	for i := lo; i < hi; i++ {
		o = append(o, *(*byte)(unsafe.Pointer(uintptr(p) + i)))
	}
	return o
}

// sync takes the visible contents of the library's message as the model's.
func (w *world) sync(s *slot) {
	c, bad := safeCanon(s.v)
	if bad != "" {
		w.fail("memory", "slot of type %s: %s", w.p.Types[s.t], bad)
		return
	}
	m, st := ref.Decode(s.v.Type().Elem(), c)
	if st != ref.OK {
		w.fail("result", "a decode left a repeated field with a nil element in %s", w.p.Types[s.t])
		return
	}
	s.m, s.canon, s.bad = m, c, false
}

// guard pages

var guards [simrt.MaxTasks][]byte

const guardSize = 1 << 20

func guardBuf(task int, b []byte) []byte {
	if task < 0 || len(b) > guardSize {
		return append([]byte(nil), b...)
	}
	if guards[task] == nil {
		pg := syscall.Getpagesize()
		m, err := syscall.Mmap(-1, 0, guardSize+pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return append([]byte(nil), b...)
		}
		if err := syscall.Mprotect(m[guardSize:], syscall.PROT_NONE); err != nil {
			fatal("mprotect: %v", err)
		}
		guards[task] = m[:guardSize:guardSize]
	}
	g := guards[task]
	x := g[guardSize-len(b):]
	copy(x, b)
	return x
}

// place puts input where the operation wants it.
func (w *world) place(o *Op) (in, whole []byte) {
	mode, tailSeed := int64(0), int64(0)
	if len(o.A) > 0 {
		mode = o.A[0]
	}
	if len(o.A) > 2 {
		tailSeed = o.A[2]
	}
	switch mode {
	case 1: // spare capacity behind
		r := ref.NewRng(uint64(tailSeed))
		sp := r.Bytes(1 + r.Intn(60))
		whole = append(append(make([]byte, 0, len(o.B)+len(sp)), o.B...), sp...)
		return whole[:len(o.B)], whole
	case 2: // the node's buffer
		buf := w.bufs[o.Task]
		if len(buf) < len(o.B)+8 {
			buf = make([]byte, 2*len(o.B)+64)
			w.bufs[o.Task] = buf
		}
		copy(buf, o.B)
		return buf[:len(o.B)], buf
	case 3:
		g := guardBuf(o.Task, o.B)
		return g, g
	}
	in = append(make([]byte, 0, len(o.B)), o.B...)
	return in, in
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// exec performs one operation of a node.
func (w *world) exec(i int, o *Op) {
	if w.vio != nil {
		return
	}
	// only the library's own code is at the scheduler's mercy
	simrt.Pause()
	defer simrt.Resume()
	s := w.slots[o.D]
	w.st.Calls++
	switch o.K {
	case "recv":
		w.recv(i, o, s)
	case "send":
		w.send(i, o, s)
	case "fresh":
		w.fresh(s, o.V-1)
	case "zero":
		s.v.Elem().Set(reflect.Zero(s.v.Type().Elem()))
		w.sync(s)
	case "recycle":
		recycle(s.v.Elem(), ref.Desc(s.v.Type().Elem()), ref.NewRng(uint64(o.A[0])), int(o.A[1]))
		w.sync(s)
	case "keep":
		// decode again into whatever is there
		w.sync(s)
	case "vandal":
		vandal(s.v.Elem(), ref.Desc(s.v.Type().Elem()), ref.NewRng(uint64(o.A[0])), 6)
		w.sync(s)
	case "outgarble":
		if len(w.outs) > 0 {
			x := w.outs[int(o.A[0])%len(w.outs)]
			for k := range x.b {
				x.b[k] ^= 0xff
			}
			x.b = append(x.b, "appended bytes"...)
			x.snap = append([]byte(nil), x.b...)
		}
	default:
		panic("op " + o.K)
	}
	if w.vio == nil && w.everything {
		w.checkAll(fmt.Sprintf("after operation %d (%s, task %d)", i, o.K, o.Task))
	}
}

func (w *world) recv(i int, o *Op, s *slot) {
	in, whole := w.place(o)
	before := append([]byte(nil), whole...)
	var m reflect.Value
	var st ref.Status
	mismatched := false
	if !s.bad {
		m, _ = ref.Decode(s.v.Type().Elem(), s.canon)
		if w.strict {
			st, mismatched = ref.MergeSkipping(o.B, m.Elem())
		} else {
			st = ref.Merge(o.B, m.Elem())
		}
	} else {
		st = ref.Unspec
	}
	var a0 uint64
	if w.alloc && w.p.Tasks == 1 {
		if t := s.v.Type().Elem(); !w.warm[t] {
			// what the first use of a type needs is not the input's doing
			w.warm[t] = true
			simrt.Resume()
			doMarshal(reflect.New(t).Interface())
			simrt.Pause()
		}
		a0 = allocated()
	}
	s.busy = true
	pads := ref.Pads(s.v.Elem())
	simrt.Resume()
	r := doUnmarshal(in, s.v.Interface())
	simrt.Pause()
	s.busy = false
	name := func() string {
		return fmt.Sprintf("operation %d (Unmarshal of %d bytes into %s, task %d)", i, len(o.B), w.p.Types[s.t], o.Task)
	}
	if r.panicked != "" {
		w.fail("panic", "%s: %s", name(), r.panicked)
		return
	}
	if w.alloc && w.p.Tasks == 1 {
		got := allocated() - a0
		need := ref.Cost(s.v.Type().Elem(), o.B)
		if limit := 1<<17 + 6*need + 64*uint64(len(s.canon)+len(o.B)); got > limit {
			w.fail("allocation", "%s: %d bytes were allocated, more than %d", name(), got, limit)
			return
		}
	}
	if !same(before, whole) {
		w.fail("input-modified", "%s: the input, or memory behind it, was modified", name())
		return
	}
	if len(o.A) > 1 && o.A[1] != 0 {
		for k := range whole {
			if o.A[1] == 1 {
				whole[k] = 0xA5
			} else {
				whole[k] ^= 0xff
			}
		}
		w.st.add("buffer_overwritten", 1)
	}
	if s.pre != nil {
		for k := range s.pre {
			if s.pre[k] != canaryWord || s.post[k] != canaryWord {
				w.fail("memory", "%s: memory around the message was overwritten", name())
				return
			}
		}
	}
	if ref.Pads(s.v.Elem()) != pads {
		w.fail("memory", "%s: a struct field that is no message field was overwritten", name())
		return
	}
	for k := range s.tails {
		if !same(s.tails[k].bytes(), s.tails[k].want) {
			w.fail("memory", "%s: memory behind the capacity of a %v in the message was overwritten", name(), s.tails[k].full.Type())
			return
		}
	}
	w.st.digest([]byte(errClass(r.err)))
	if s.bad {
		return
	}
	if mismatched && st == ref.OK {
		w.nMism++
		if r.err != nil {
			s.bad = true
			return
		}
		// not reported: then it has to be passed over
	}
	if st == ref.OK {
		w.nOK++
		if r.err != nil {
			w.fail("result", "%s: error: %v\n  input: %x\n  want: %s", name(), r.err, trunc(o.B, 200), ref.Dump(m.Elem()))
			return
		}
		c, bad := safeCanon(s.v)
		want := ref.Canon(m)
		w.st.digest(c)
		if bad != "" || !same(c, want) {
			w.fail("result", "%s\n  input: %x\n  before: %x\n  got:  %s %s\n  want: %s", name(), trunc(o.B, 300), trunc(s.canon, 200), safeDump(s.v), bad, ref.Dump(m.Elem()))
			return
		}
		s.m, s.canon = m, want
		return
	}
	w.nFail++
	s.bad = true
	if w.strict && st != ref.Unspec && r.err == nil {
		w.fail("damage-accepted", "%s: these bytes are not an encoding of any message (%v), Unmarshal accepted them as\n  %s\n  input: %x", name(), st, safeDump(s.v), trunc(o.B, 300))
		return
	}
	if w.wantEOF && st == ref.EOF && !errors.Is(r.err, io.ErrUnexpectedEOF) {
		w.fail("cut-not-reported", "%s: the message is cut short, Unmarshal returned %v\n  input: %x", name(), r.err, trunc(o.B, 300))
	}
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func safeDump(v reflect.Value) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprint("unreadable: ", x)
		}
	}()
	return ref.Dump(v.Elem())
}

func (w *world) send(i int, o *Op, s *slot) {
	if s.bad {
		return
	}
	s.busy = true
	was := ref.Image(s.v)
	simrt.Resume()
	n := doSize(s.v.Interface())
	r := doMarshal(s.v.Interface())
	simrt.Pause()
	s.busy = false
	name := fmt.Sprintf("operation %d (Marshal of %s, task %d)", i, w.p.Types[s.t], o.Task)
	if r.panicked != "" || n.panicked != "" {
		w.fail("panic", "%s: %s %s", name, r.panicked, n.panicked)
		return
	}
	if ref.Image(s.v) != was {
		w.fail("changed", "%s: Size or Marshal wrote to the message", name)
		return
	}
	if r.err != nil {
		w.fail("result", "%s: error: %v", name, r.err)
		return
	}
	if n.size != len(r.out) {
		w.fail("size", "%s: Size is %d, Marshal gave %d bytes", name, n.size, len(r.out))
		return
	}
	v, st := ref.Decode(s.v.Type().Elem(), r.out)
	if st != ref.OK || !same(ref.Canon(v), s.canon) {
		w.fail("result", "%s: the output reads back (%v) as\n  %s\n  want %s", name, st, ref.Dump(v.Elem()), ref.Dump(s.m.Elem()))
		return
	}
	w.st.digest(ref.Canon(v))
	w.outs = append(w.outs, &outBuf{b: r.out, snap: append([]byte(nil), r.out...)})
}

// checkAll compares every live object with what it should be.
func (w *world) checkAll(when string) {
	for k, s := range w.slots {
		if s.busy || s.bad || w.vio != nil {
			continue
		}
		c, bad := safeCanon(s.v)
		if bad != "" || !same(c, s.canon) {
			w.fail("changed", "%s the message in slot %d (%s) is no longer what it was\n  now: %s %s\n  was: %s", when, k, w.p.Types[s.t], safeDump(s.v), bad, ref.Dump(s.m.Elem()))
			return
		}
	}
	for k, x := range w.outs {
		if !same(x.b, x.snap) {
			w.fail("changed", "%s the bytes that Marshal call %d returned are no longer what they were\n  now: %x\n  was: %x", when, k, trunc(x.b, 200), trunc(x.snap, 200))
			return
		}
	}
}

// run performs the plan: the slots are made first, then the tasks run.
func (w *world) run() *Violation {
	p := w.p
	for k := range p.Slots {
		s := &slot{t: p.Slots[k].T}
		w.slots = append(w.slots, s)
		w.fresh(s, p.Slots[k].V-1)
	}
	if w.vio != nil {
		return w.vio
	}
	fns := make([]func(), p.Tasks)
	for t := range fns {
		t := t
		fns[t] = func() {
			if !simrt.RaceEnabled {
				debug.SetPanicOnFault(true)
			}
			for i := range p.Ops {
				if p.Ops[i].Task == t {
					w.exec(i, &p.Ops[i])
				}
			}
		}
	}
	var total int
	for i := range p.Ops {
		total += len(p.Ops[i].B)
		if p.Ops[i].At > w.p.simEnd {
			w.p.simEnd = p.Ops[i].At
		}
	}
	w.st.SimMicros += w.p.simEnd
	for k, n := range p.P {
		if len(k) > 4 && (k[:4] == "net_" || k[:4] == "dsk_" || k[:4] == "dmg_" || k[:4] == "brk_") {
			w.st.add(k, int(n))
		}
	}
	r := p.sched(w.st, isolatedCap+4000*uint64(total), 2000+40*uint64(total)/uint64(p.Tasks), fns)
	if v := schedViolation(&r); v != nil {
		return v
	}
	if w.vio != nil {
		return w.vio
	}
	w.checkAll("at the end of the run")
	if len(p.Ops) == 0 {
		w.st.trivial = true
	}
	return w.vio
}

// recycle empties a message the way programs do to use its memory again.
func recycle(v reflect.Value, m *ref.Msg, r *ref.Rng, depth int) {
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		switch {
		case f.Card == ref.Map:
			switch r.Intn(3) {
			case 0:
				fv.Set(reflect.Zero(fv.Type()))
			case 1:
				for _, k := range fv.MapKeys() {
					fv.SetMapIndex(k, reflect.Value{})
				}
			default:
				if fv.Len() > 0 {
					fv.Set(reflect.MakeMap(fv.Type()))
				}
			}
		case f.Card == ref.Repeated || f.Kind == ref.Bytes && f.Card == ref.Implicit:
			switch r.Intn(8) {
			case 0:
				fv.Set(reflect.Zero(fv.Type()))
			case 1: // a part of it stays
				if fv.Len() > 0 {
					fv.Set(fv.Slice(0, r.Intn(fv.Len())))
				}
			default:
				if !fv.IsNil() {
					fv.Set(fv.Slice(0, 0))
				}
			}
		case f.Kind == ref.Message:
			if !fv.IsNil() && depth > 0 && r.P(600) {
				recycle(fv.Elem(), f.Msg, r, depth-1)
			} else {
				fv.Set(reflect.Zero(fv.Type()))
			}
		case f.Card == ref.Pointer:
			if !fv.IsNil() && r.P(400) {
				fv.Elem().Set(reflect.Zero(fv.Type().Elem()))
			} else {
				fv.Set(reflect.Zero(fv.Type()))
			}
		default:
			if r.P(900) {
				fv.Set(reflect.Zero(fv.Type()))
			}
		}
	}
}

// vandal overwrites everything reachable from a message, in place, up to the
// capacity of its slices.
func vandal(v reflect.Value, m *ref.Msg, r *ref.Rng, depth int) {
	scalar := func(k ref.Kind, x reflect.Value) {
		if k == ref.Bytes {
			b := x.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x3c
			}
			if r.P(500) {
				x.SetBytes(append(x.Bytes(), 1, 2, 3))
			}
			return
		}
		ref.Set(k, x, ref.RandScalar(r, k))
	}
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		switch {
		case f.Card == ref.Option:
			if r.P(700) {
				ref.OptSet(fv, f.Kind, ref.RandScalar(r, f.Kind))
			}
		case f.Card == ref.Pointer:
			if !fv.IsNil() {
				scalar(f.Kind, fv.Elem())
			}
		case f.Card == ref.Map:
			if fv.IsNil() {
				continue
			}
			for _, k := range sortedKeys(fv, f) {
				x := fv.MapIndex(k)
				switch {
				case f.Kind == ref.Message:
					if !x.IsNil() && depth > 0 {
						vandal(x.Elem(), f.Msg, r, depth-1)
					}
				case f.Kind == ref.Bytes:
					b := x.Bytes()
					b = b[:cap(b)]
					for i := range b {
						b[i] ^= 0x3c
					}
				default:
					n := reflect.New(x.Type()).Elem()
					scalar(f.Kind, n)
					fv.SetMapIndex(k, n)
				}
			}
			k := reflect.New(fv.Type().Key()).Elem()
			ref.Set(f.Key, k, ref.RandScalar(r, f.Key))
			n := reflect.New(fv.Type().Elem()).Elem()
			if f.Kind == ref.Message {
				n.Set(reflect.New(f.Msg.Type))
			}
			fv.SetMapIndex(k, n)
		case f.Card == ref.Repeated:
			if fv.IsNil() {
				continue
			}
			n := fv.Len()
			full := fv.Slice(0, fv.Cap())
			for i := 0; i < full.Len(); i++ {
				e := full.Index(i)
				switch {
				case f.Kind != ref.Message:
					scalar(f.Kind, e)
				case i < n:
					if !e.IsNil() && depth > 0 {
						vandal(e.Elem(), f.Msg, r, depth-1)
					}
				default:
					e.Set(reflect.New(f.Msg.Type))
				}
			}
			if r.P(400) && fv.Cap() > n {
				fv.Set(fv.Slice(0, n+1))
			}
		case f.Kind == ref.Message:
			if !fv.IsNil() && depth > 0 {
				vandal(fv.Elem(), f.Msg, r, depth-1)
			}
		default:
			if f.Kind == ref.Bytes && fv.IsNil() {
				continue
			}
			scalar(f.Kind, fv)
		}
	}
}

// sortedKeys gives the keys of a map in a fixed order.
func sortedKeys(m reflect.Value, f *ref.Field) []reflect.Value {
	ks := m.MapKeys()
	less := func(a, b reflect.Value) bool {
		if f.Key == ref.String {
			return a.String() < b.String()
		}
		return ref.Get(f.Key, a).U < ref.Get(f.Key, b).U
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && less(ks[j], ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

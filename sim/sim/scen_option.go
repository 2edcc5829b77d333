package main

import (
	"fmt"
	"math"

	"github.com/RomiChan/protobuf/proto"
	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// ---- C15: option values ----

// optMsg has an optional field of every kind that messages can have.
type optMsg struct {
	Bool    proto.Option[bool]    `protobuf:"varint,1,opt"`
	Int32   proto.Option[int32]   `protobuf:"varint,2,opt"`
	Int64   proto.Option[int64]   `protobuf:"varint,3,opt"`
	Uint32  proto.Option[uint32]  `protobuf:"varint,4,opt"`
	Uint64  proto.Option[uint64]  `protobuf:"varint,5,opt"`
	Float32 proto.Option[float32] `protobuf:"fixed32,6,opt"`
	Float64 proto.Option[float64] `protobuf:"fixed64,7,opt"`
	String  proto.Option[string]  `protobuf:"bytes,8,opt"`
}

// optModel is what an option has to be: a flag and a value.
type optModel[T any] struct {
	some bool
	v    T
}

// optBank holds the option variables of one Go type: some of each task, some
// that all tasks only read, and the fields of the messages.
type optBank[T any] struct {
	name  string
	val   func(i int64) T
	eq    func(a, b T) bool
	equal func(a, b proto.Option[T]) bool // ==, nil if T has none
	field func(m *optMsg) *proto.Option[T]
	help  func(v T) proto.Option[T] // Bool, Int32, ...
	vars  [][]proto.Option[T]       // by task; the last ones are shared
	model [][]optModel[T]
	fmod  [][]optModel[T] // the fields of the task's messages
}

type optBanker interface {
	init(tasks int, shared []int64)
	do(task int, msgs []*optMsg, o *Op) string
	verify(task int, msgs []*optMsg) string
	decoded(task, dst, src int)
	clear(task, m int)
	share(m *optMsg)
	arrived(m *optMsg) string
}

const (
	optVars = 4
	optMsgs = 3
)

func (b *optBank[T]) init(tasks int, shared []int64) {
	b.vars, b.model, b.fmod = nil, nil, nil
	for i := 0; i <= tasks; i++ {
		b.vars = append(b.vars, make([]proto.Option[T], optVars))
		b.model = append(b.model, make([]optModel[T], optVars))
		b.fmod = append(b.fmod, make([]optModel[T], optMsgs))
	}
	for i, x := range shared {
		if x >= 0 && i < optVars {
			b.vars[tasks][i] = proto.Some(b.val(x))
			b.model[tasks][i] = optModel[T]{true, b.val(x)}
		}
	}
}

func (b *optBank[T]) share(m *optMsg) {
	if b.field == nil {
		return
	}
	n := len(b.vars) - 1
	*b.field(m) = b.vars[n][0]
}

// check reads an option in all ways.
func (b *optBank[T]) check(what string, o proto.Option[T], m optModel[T], def T) string {
	var zero T
	simrt.BeginOp()
	if got := o.IsSome(); got != m.some {
		return fmt.Sprintf("%s: IsSome() is %v", what, got)
	}
	if got := o.IsNone(); got == m.some {
		return fmt.Sprintf("%s: IsNone() is %v", what, got)
	}
	want, wantOr := zero, def
	if m.some {
		want, wantOr = m.v, m.v
	}
	if got := o.Unwrap(); !b.eq(got, want) {
		return fmt.Sprintf("%s: Unwrap() is %v, want %v", what, got, want)
	}
	if got := o.UnwrapOr(def); !b.eq(got, wantOr) {
		return fmt.Sprintf("%s: UnwrapOr(%v) is %v, want %v", what, def, got, wantOr)
	}
	return ""
}

// verify reads all variables of a task, the shared ones and the fields of the
// task's messages.
func (b *optBank[T]) verify(task int, msgs []*optMsg) string {
	n := len(b.vars) - 1
	for _, t := range []int{task, n} {
		for i := range b.vars[t] {
			if s := b.check(fmt.Sprintf("%s variable %d/%d", b.name, t, i), b.vars[t][i], b.model[t][i], b.val(int64(i))); s != "" {
				return s
			}
		}
	}
	if b.field == nil {
		return ""
	}
	for i, m := range msgs {
		fm := b.fmod[task][i]
		if s := b.check(fmt.Sprintf("%s field of message %d", b.name, i), *b.field(m), fm, b.val(7)); s != "" {
			return s
		}
	}
	return ""
}

// arrived looks at a message of the shared options on the other side.
func (b *optBank[T]) arrived(m *optMsg) string {
	if b.field == nil {
		return ""
	}
	n := len(b.vars) - 1
	return b.check(b.name+" option of the message that all tasks send", *b.field(m), b.model[n][0], b.val(3))
}

func (b *optBank[T]) decoded(task, dst, src int) {
	if b.fmod[task][src].some {
		b.fmod[task][dst] = b.fmod[task][src]
	}
}

func (b *optBank[T]) clear(task, m int) { b.fmod[task][m] = optModel[T]{} }

func (b *optBank[T]) do(task int, msgs []*optMsg, o *Op) string {
	i, j, x := int(o.A[2])%optVars, int(o.A[3])%optVars, o.A[4]
	vars, model := b.vars[task], b.model[task]
	simrt.BeginOp()
	switch o.A[1] {
	case 0:
		vars[i], model[i] = proto.Some(b.val(x)), optModel[T]{true, b.val(x)}
	case 1:
		vars[i], model[i] = proto.None[T](), optModel[T]{}
	case 2:
		vars[i], model[i] = proto.Option[T]{}, optModel[T]{}
	case 3: // a copy, in one of the ways Go has
		switch x % 5 {
		case 0:
			vars[i] = vars[j]
		case 1:
			c := append([]proto.Option[T](nil), vars...)
			vars[i] = c[j]
		case 2:
			m := map[int]proto.Option[T]{1: vars[j]}
			vars[i] = m[1]
		case 3:
			var v interface{} = vars[j]
			vars[i] = v.(proto.Option[T])
		case 4:
			p := &vars[j]
			f := func() proto.Option[T] { return *p }
			vars[i] = f()
		}
		model[i] = model[j]
	case 4: // a copy of a shared one
		n := len(b.vars) - 1
		vars[i], model[i] = b.vars[n][j], b.model[n][j]
	case 5:
		if b.help == nil {
			return ""
		}
		vars[i], model[i] = b.help(b.val(x)), optModel[T]{true, b.val(x)}
	case 6: // into a message
		if b.field == nil {
			return ""
		}
		*b.field(msgs[j%optMsgs]), b.fmod[task][j%optMsgs] = vars[i], model[i]
	case 7: // out of a message
		if b.field == nil {
			return ""
		}
		vars[i], model[i] = *b.field(msgs[j%optMsgs]), b.fmod[task][j%optMsgs]
	case 8:
		if b.equal == nil {
			return ""
		}
		mi, mj := model[i], model[j]
		var zero T
		if mi.some && !b.equal(proto.Some(mi.v), proto.Some(mi.v)) || mj.some && !b.equal(proto.Some(mj.v), proto.Some(mj.v)) || !b.eq(zero, zero) {
			if mi.some && isNaN(mi.v) || mj.some && isNaN(mj.v) {
				return "" // not equal to itself, as in Go
			}
			return fmt.Sprintf("%s: two equal options differ", b.name)
		}
		want := mi.some == mj.some && (!mi.some || eqGo(mi.v, mj.v))
		if got := b.equal(vars[i], vars[j]); got != want {
			return fmt.Sprintf("%s: variables %d and %d: == is %v", b.name, i, j, got)
		}
	}
	return ""
}

func isNaN(v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return x != x
	case float64:
		return x != x
	}
	return false
}

func eqGo(a, b interface{}) bool { return a == b }

func cmpBank[T comparable](name string, val func(int64) T, eq func(a, b T) bool, field func(m *optMsg) *proto.Option[T], help func(T) proto.Option[T]) *optBank[T] {
	if eq == nil {
		eq = func(a, b T) bool { return a == b }
	}
	return &optBank[T]{name: name, val: val, eq: eq, field: field, help: help, equal: func(a, b proto.Option[T]) bool { return a == b }}
}

type optPoint struct {
	A int32
	S string
}

func pickI[T any](vs ...T) func(int64) T {
	return func(i int64) T { return vs[uint64(i)%uint64(len(vs))] }
}

func newBanks() []optBanker {
	ints := func(bits uint) func(int64) int64 {
		return pickI[int64](0, 1, -1, 127, 128, -128, math.MaxInt32, math.MinInt32, 1<<(bits-1)-1, -1<<(bits-1), 300, 0x5a5a5a5a)
	}
	i32, i64 := ints(32), ints(64)
	x, y := int32(5), int32(0)
	return []optBanker{
		cmpBank("bool", pickI(true, false), nil, func(m *optMsg) *proto.Option[bool] { return &m.Bool }, proto.Bool),
		cmpBank("int32", func(i int64) int32 { return int32(i32(i)) }, nil, func(m *optMsg) *proto.Option[int32] { return &m.Int32 }, proto.Int32),
		cmpBank("int64", i64, nil, func(m *optMsg) *proto.Option[int64] { return &m.Int64 }, proto.Int64),
		cmpBank("uint32", func(i int64) uint32 { return uint32(i32(i)) }, nil, func(m *optMsg) *proto.Option[uint32] { return &m.Uint32 }, proto.Uint32),
		cmpBank("uint64", func(i int64) uint64 { return uint64(i64(i)) }, nil, func(m *optMsg) *proto.Option[uint64] { return &m.Uint64 }, proto.Uint64),
		cmpBank("float32", pickI(0, 1, -1.5, float32(math.Copysign(0, -1)), float32(math.NaN()), float32(math.Inf(1)), math.MaxFloat32, math.SmallestNonzeroFloat32),
			func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }, func(m *optMsg) *proto.Option[float32] { return &m.Float32 }, proto.Float32),
		cmpBank("float64", pickI(0, 1, -1.5, math.Copysign(0, -1), math.NaN(), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64),
			func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, func(m *optMsg) *proto.Option[float64] { return &m.Float64 }, proto.Float64),
		cmpBank("string", func(i int64) string {
			switch i % 4 {
			case 0:
				return ""
			case 1:
				return "x"
			case 2:
				return fmt.Sprintf("text %d \x00 \xff", i)
			}
			return string(make([]byte, i%2000))
		}, nil, func(m *optMsg) *proto.Option[string] { return &m.String }, proto.String),
		cmpBank("pointer", pickI[*int32](nil, &x, &y), nil, nil, nil),
		cmpBank("struct", pickI(optPoint{}, optPoint{1, ""}, optPoint{0, "s"}, optPoint{-7, "long text"}), nil, nil, nil),
		&optBank[interface{}]{name: "interface", val: pickI[interface{}](nil, 1, "s", optPoint{1, "x"}, (*int)(nil)),
			eq:    func(a, b interface{}) bool { return a == b },
			equal: func(a, b proto.Option[interface{}]) bool { return a == b }},
		cmpBank("option", pickI(proto.None[int32](), proto.Some[int32](0), proto.Some[int32](9)), nil, nil, nil),
		&optBank[[]byte]{name: "bytes", val: pickI([]byte(nil), []byte{}, []byte("abc"), make([]byte, 100)),
			eq: func(a, b []byte) bool { return string(a) == string(b) && (a == nil) == (b == nil) }},
		&optBank[func() int]{name: "func", val: pickI[func() int](nil, func() int { return 1 }), eq: func(a, b func() int) bool { return (a == nil) == (b == nil) }},
	}
}

func genOption(r *ref.Rng, p *Plan) {
	p.Tasks = r.Pick(1, 1, 2, 3)
	nb := int64(len(newBanks()))
	few := make([]int64, 1+r.Intn(3))
	for i := range few {
		few[i] = int64(r.Intn(int(nb)))
	}
	var sh []int64
	for i := 0; i < optVars; i++ {
		sh = append(sh, int64(r.Intn(40))-8)
	}
	p.Ops = append(p.Ops, Op{K: "shared", Task: -1, A: sh})
	for t := 0; t < p.Tasks; t++ {
		for i := 2 + r.Intn(r.Pick(6, 20, 40)); i >= 0; i-- {
			o := Op{Task: t}
			switch {
			case r.P(700):
				o.K = "opt"
				o.A = []int64{few[r.Intn(len(few))], int64(r.Intn(9)), int64(r.Intn(optVars)), int64(r.Intn(optVars)), int64(r.Intn(3000))}
			case r.P(750):
				o.K = "send"
				o.A = []int64{int64(r.Intn(optMsgs)), int64(r.Intn(optMsgs))}
			case r.P(500):
				o.K = "sendshared"
			default:
				o.K = "fail"
				o.A = []int64{int64(r.Intn(optMsgs)), int64(r.Intn(12))}
			}
			p.Ops = append(p.Ops, o)
		}
	}
	p.Sched = randSched(r, p.Tasks)
	p.Sched.PGC = r.Pick(0, 0, 0, 2)
}

func runOption(p *Plan, st *Stats) *Violation {
	banks := newBanks()
	var sh []int64
	for i := range p.Ops {
		if p.Ops[i].K == "shared" {
			sh = p.Ops[i].A
		}
	}
	for _, b := range banks {
		b.init(p.Tasks, sh)
	}
	shared := new(optMsg)
	for _, b := range banks {
		b.share(shared)
	}
	msgs := make([][]*optMsg, p.Tasks)
	for t := range msgs {
		for i := 0; i < optMsgs; i++ {
			msgs[t] = append(msgs[t], new(optMsg))
		}
	}
	resetWorld()
	// the harness checks the result of every call: calls of the library need no name of their own
	bad := make([]string, len(p.Ops))
	step := func(i int, o *Op) string {
		t := o.Task
		switch o.K {
		case "opt":
			if s := banks[int(o.A[0])%len(banks)].do(t, msgs[t], o); s != "" {
				return s
			}
		case "send", "sendshared":
			src, d := shared, 0
			if o.K == "send" {
				src, d = msgs[t][o.A[0]], int(o.A[1])
			}
			m := doMarshal(src)
			if m.panicked != "" || m.err != nil {
				return fmt.Sprintf("Marshal: %s %v", m.panicked, m.err)
			}
			if o.K == "sendshared" {
				var x optMsg
				u := doUnmarshal(m.out, &x)
				if u.panicked != "" || u.err != nil {
					return fmt.Sprintf("Unmarshal: %s %v", u.panicked, u.err)
				}
				for _, b := range banks {
					if s := b.arrived(&x); s != "" {
						return s
					}
				}
				break
			}
			u := doUnmarshal(m.out, msgs[t][d])
			if u.panicked != "" || u.err != nil {
				return fmt.Sprintf("Unmarshal: %s %v", u.panicked, u.err)
			}
			for _, b := range banks {
				b.decoded(t, d, int(o.A[0]))
			}
			scrub(m.out)
		case "fail":
			// a damaged message: what the fields hold then is for the caller to forget
			d := int(o.A[0])
			in := [][]byte{{8}, {8, 0x80}, {16, 0xff}, {0x35, 1, 2}, {0x39, 1}, {0x42, 5, 'a'}, {0x42}, {24, 1, 32, 0x80}, {0x2a, 1, 0}, {0xb, 0}, {8, 1, 0x42, 0xff}, {0x42, 1, 'q', 0x35, 0}}[o.A[1]]
			u := doUnmarshal(append([]byte(nil), in...), msgs[t][d])
			if u.panicked != "" {
				return u.panicked
			}
			*msgs[t][d] = optMsg{}
			for _, b := range banks {
				b.clear(t, d)
			}
		}
		for _, b := range banks {
			if s := b.verify(t, msgs[t]); s != "" {
				return s
			}
		}
		return ""
	}
	fns := make([]func(), p.Tasks)
	for t := range fns {
		t := t
		fns[t] = func() {
			for i := range p.Ops {
				if o := &p.Ops[i]; o.Task == t && bad[i] == "" {
					res := result{}
					guarded(&res, func() { bad[i] = step(i, o) })
					if res.panicked != "" {
						bad[i] = res.panicked
					}
					if bad[i] != "" {
						return
					}
				}
			}
		}
	}
	r := p.sched(st, isolatedCap, uint64(1000*len(p.Ops)/p.Tasks), fns)
	if v := schedViolation(&r); v != nil {
		return v
	}
	st.Calls += int64(len(p.Ops))
	for i := range p.Ops {
		o := &p.Ops[i]
		st.add("op_"+o.K, 1)
		st.digest([]byte(bad[i]))
		if bad[i] != "" {
			return violf("option", "after operation %d (%s %v, task %d): %s", i, o.K, o.A, o.Task, bad[i])
		}
		st.digest([]byte(fmt.Sprint(o.K, o.A)))
	}
	return nil
}

func scrub(b []byte) {
	for i := range b {
		b[i] = 0xa5
	}
}

func init() {
	scenarios["C15"] = &scenario{gen: genOption, run: runOption,
		rule: "a seed draws 1-3 tasks that create, copy, compare, store, load, encode and decode options of 14 Go types, with four variables per type and task, three messages per task and options that all tasks read, in a history of up to 40 operations per task with failed decodes, under a random schedule; after every operation every variable and field of the task is read in all ways; distinct by history and schedule"}
}

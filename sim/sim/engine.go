package main

import (
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

const isolatedCap = 30000000

// exec performs one operation with arguments of its own and describes all
// that its caller can observe.
// decoded describes the result of decoding into d.
func decoded(o *Op, d reflect.Value, r *result) string {
	f := func() string { return outcomeUnmarshal(d, r) }
	out := f()
	if o.D == 0 {
		r.again = f
	}
	return out
}

func (p *Plan) exec(o *Op) (string, result) {
	switch o.K {
	case "marshal":
		m := reuse(o, p.msg(o.V))
		was := image(m)
		r := doMarshal(m.Interface())
		if image(m) != was {
			return "the message was changed", r
		}
		r.again = func() string { return outcomeMarshal(m.Type().Elem(), &r) }
		return r.again(), r
	case "size":
		m := reuse(o, p.msg(o.V))
		was := image(m)
		r := doSize(m.Interface())
		if image(m) != was {
			return "the message was changed", r
		}
		return outcomeSize(&r), r
	case "unmarshal":
		d := reuse(o, reflect.New(p.typ(o.T)))
		b := input(o)
		r := doUnmarshal(b, d.Interface())
		if !same(b, o.B) {
			return "the input was modified", r
		}
		return decoded(o, d, &r), r
	case "umerge":
		d := reuse(o, p.msg(o.V))
		r := doUnmarshal(input(o), d.Interface())
		return decoded(o, d, &r), r
	case "bad-marshal":
		d := badValue(o)
		was := shape(d.Elem(), 3)
		r := doMarshal(d.Interface())
		if shape(d.Elem(), 3) != was {
			return "the argument was changed", r
		}
		return outcomeBad(&r, fmt.Sprintf("%x", r.out)), r
	case "bad-size":
		r := doSize(badValue(o).Interface())
		return outcomeBad(&r, fmt.Sprint(r.size)), r
	case "bad-unmarshal":
		d := badValue(o)
		was := shape(d.Elem(), 3)
		r := doUnmarshal(append([]byte(nil), o.B...), d.Interface())
		if shape(d.Elem(), 3) != was {
			return "the destination was changed", r
		}
		return outcomeBad(&r, "decoded"), r
	case "arg":
		return argOp(o)
	}
	panic("op " + o.K)
}

func image(m reflect.Value) uint64 {
	simrt.Pause()
	defer simrt.Resume()
	return ref.Image(m)
}

// outcomeBad does not look at how a type is rejected, only whether.
func outcomeBad(r *result, ok string) string {
	switch {
	case r.panicked != "":
		return "rejected"
	case r.err != nil:
		return "rejected"
	}
	return "accepted: " + ok
}

// argOp calls with an argument that is no message.
func argOp(o *Op) (string, result) {
	var v interface{}
	x := 5
	var np *int
	var ns *cat.Leaf
	switch o.S {
	case "nil":
	case "struct":
		v = cat.Leaf{A: 1}
	case "int":
		v = 7
	case "string":
		v = "text"
	case "map":
		v = map[string]int32{"a": 1}
	case "nilmap":
		v = map[string]int32(nil)
	case "slice":
		v = []int32{1, 2}
	case "func":
		v = func() {}
	case "intptr":
		v = &x
	case "nilintptr":
		v = np
	case "ptrptr":
		q := &cat.Leaf{}
		v = &q
	case "mapptr":
		m := map[string]int32{}
		v = &m
	case "sliceptr":
		m := []byte{1}
		v = &m
	case "ifaceptr":
		var m interface{} = &cat.Leaf{}
		v = &m
	case "chan":
		v = make(chan int)
	case "nilstruct":
		v = ns
	}
	var r result
	if o.V == 0 {
		r = doMarshal(v)
	} else {
		r = doUnmarshal(append([]byte(nil), o.B...), v)
	}
	if x != 5 {
		return "the argument was changed", r
	}
	switch {
	case r.panicked != "":
		return r.panicked, r
	case r.err != nil:
		guarded(&r, func() { _ = r.err.Error() })
		if r.panicked != "" {
			return "an error that cannot be printed: " + r.panicked, r
		}
		return "error", r
	}
	return "accepted", r
}

var badArgs = []string{"nil", "struct", "int", "string", "map", "nilmap", "slice", "func", "intptr", "nilintptr", "ptrptr", "mapptr", "sliceptr", "ifaceptr", "chan"}

// inTask runs f alone, as the only task, with a step budget.
func (p *Plan) inTask(st *Stats, f func()) simrt.Result {
	r := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed, OpCap: isolatedCap}, []func(){f})
	st.Steps += r.Steps
	return r
}

type isoKey struct {
	k, s, b string
	t, v    int
}

// isolated finds out what op o gives alone in a new process.
func (p *Plan) isolated(st *Stats, memo map[isoKey]isoRes, o *Op) isoRes {
	k := isoKey{o.K, o.S, string(o.B), o.T, o.V}
	if x, ok := memo[k]; ok {
		return x
	}
	resetWorld()
	var x isoRes
	r := p.inTask(st, func() {
		var res result
		x.out, res = p.exec(o)
		x.steps = res.steps
	})
	if v := schedViolation(&r); v != nil {
		x.out = v.Class
		x.v = v
	}
	st.Calls++
	memo[k] = x
	return x
}

type isoRes struct {
	out   string
	steps uint64
	v     *Violation
}

// runOps runs the plan's operations: those of task -1 first, then the tasks
// under the schedule, then those of task -2, and compares every outcome with
// want.
func (p *Plan) runOps(st *Stats, want func(i int, o *Op) isoRes, after func(i int, o *Op, out string) *Violation) *Violation {
	n := len(p.Ops)
	wants := make([]isoRes, n)
	var maxSteps, total uint64
	for i := range p.Ops {
		wants[i] = want(i, &p.Ops[i])
		if wants[i].v != nil {
			return wants[i].v
		}
		if wants[i].steps > maxSteps {
			maxSteps = wants[i].steps
		}
		total += wants[i].steps
	}
	resetWorld()
	got := make([]string, n)
	again := make([]func() string, n)
	opCap := 40*maxSteps + 2000000
	phase := func(task int) func() {
		return func() {
			for i := range p.Ops {
				if o := &p.Ops[i]; o.Task == task {
					out, res := p.exec(o)
					got[i], again[i] = out, res.again
				}
			}
		}
	}
	var vio *Violation
	check := func(task int, when string) *Violation {
		for i := range p.Ops {
			o := &p.Ops[i]
			if o.Task != task && !(task == 0 && o.Task >= 0) {
				continue
			}
			st.Calls++
			st.digest([]byte(got[i]))
			if wants[i].out != anything && got[i] != wants[i].out {
				return violf("result", "%s", diffMsg(fmt.Sprintf("operation %d (%s, task %d, %s)", i, p.opName(o), o.Task, when), got[i], wants[i].out))
			}
			if after != nil {
				if v := after(i, o, got[i]); v != nil {
					return v
				}
			}
		}
		return nil
	}
	if p.has(-1) {
		r := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed ^ 0x55, OpCap: opCap}, []func(){phase(-1)})
		st.Steps += r.Steps
		if vio = schedViolation(&r); vio != nil {
			return vio
		}
		if vio = check(-1, "before the tasks started"); vio != nil {
			return vio
		}
	}
	if p.Tasks > 0 {
		fns := make([]func(), p.Tasks)
		for t := range fns {
			fns[t] = phase(t)
		}
		r := p.sched(st, opCap, total/uint64(p.Tasks)+1, fns)
		if vio = schedViolation(&r); vio != nil {
			return vio
		}
		if vio = check(0, "under this schedule"); vio != nil {
			return vio
		}
		if p.Tasks > 1 && r.Switches == 0 {
			st.trivial = true
		}
	}
	if p.has(-2) {
		r := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed ^ 0xaa, OpCap: opCap}, []func(){phase(-2)})
		st.Steps += r.Steps
		if vio = schedViolation(&r); vio != nil {
			return vio
		}
		if vio = check(-2, "after the tasks ended"); vio != nil {
			return vio
		}
	}
	// what was returned stays what it was
	for i := range p.Ops {
		if again[i] == nil {
			continue
		}
		if out := again[i](); out != got[i] {
			o := &p.Ops[i]
			return violf("result", "%s", diffMsg(fmt.Sprintf("what operation %d (%s, task %d) returned has changed since", i, p.opName(o), o.Task), out, got[i]))
		}
	}
	return nil
}

func (p *Plan) has(task int) bool {
	for i := range p.Ops {
		if p.Ops[i].Task == task {
			return true
		}
	}
	return false
}

func (p *Plan) opName(o *Op) string {
	switch o.K {
	case "marshal", "size":
		return o.K + " " + p.Types[p.Vals[o.V].T].String()
	case "unmarshal", "umerge":
		return o.K + " " + p.Types[o.T].String()
	}
	return o.K + " " + o.S
}

// damage makes a hostile variant of an encoding.
func damage(r *ref.Rng, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return r.Bytes(1 + r.Intn(6)), "garbage"
	}
	switch r.Intn(9) {
	case 0, 1:
		return b[:r.Intn(len(b))], "truncate"
	case 2, 3:
		for i := r.Intn(3); i >= 0; i-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, "bit_flip"
	case 4:
		i := r.Intn(len(b))
		b[i] = byte(r.U64())
		return b, "byte_garble"
	case 5:
		i := r.Intn(len(b))
		j := i + r.Intn(len(b)-i)
		return append(b[:j:j], b[i:]...), "duplicate_range"
	case 6:
		i := r.Intn(len(b))
		j := i + r.Intn(len(b)-i)
		return cut(b, i, j), "drop_range"
	case 7:
		// a hostile varint somewhere
		i := r.Intn(len(b))
		h := [][]byte{
			{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
			{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
			{0xff, 0xff, 0xff, 0xff, 0x0f},
			{0xff, 0xff, 0xff, 0xff, 0x07},
			{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02},
			{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
			{0x80, 0x80, 0x80, 0x80, 0x08},
			{0xff, 0x7f},
		}[r.Intn(8)]
		o := append(b[:i:i], h...)
		if r.P(500) {
			return append(o, b[i:]...), "hostile_varint"
		}
		if i+1 < len(b) {
			o = append(o, b[i+1:]...)
		}
		return o, "hostile_varint"
	default:
		i := r.Intn(len(b) + 1)
		return append(append(b[:i:i], r.Bytes(1+r.Intn(8))...), b[i:]...), "insert_garbage"
	}
}

package main

import (
	"fmt"
	"reflect"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// ---- C03: histories ----

// variant is a type with the same Go layout as t and other wire forms.
func variant(r *ref.Rng, t *ref.TSpec) *ref.TSpec {
	if t.Cat != "" {
		return t
	}
	o := &ref.TSpec{Pad: t.Pad, PadN: t.PadN, F: append([]ref.FSpec(nil), t.F...)}
	if r.P(300) { // other numbers
		perm := make([]uint32, len(o.F))
		for i := range perm {
			perm[i] = o.F[i].N
		}
		for i := len(perm) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		for i := range o.F {
			o.F[i].N = perm[i]
		}
	}
	for i := range o.F {
		f := &o.F[i]
		if f.Sub != nil {
			f.Sub = variant(r, f.Sub)
		}
		if r.P(600) {
			f.K = sibling(r, f.K)
		}
		if f.MK != "" && r.P(600) {
			f.MK = sibling(r, f.MK)
		}
		if f.C == "opt" && r.P(200) {
			f.C = "req"
		}
		if r.P(80) {
			f.NM = !f.NM
		}
	}
	return o
}

var siblings = [][]string{{"int32", "sint32", "sfixed32"}, {"int64", "sint64", "sfixed64"}, {"uint32", "fixed32"}, {"uint64", "fixed64"}}

func sibling(r *ref.Rng, k string) string {
	for _, s := range siblings {
		for _, x := range s {
			if x == k {
				return s[r.Intn(len(s))]
			}
		}
	}
	return k
}

// relatedTypes draws types that a cache could confuse.
func relatedTypes(r *ref.Rng, p *Plan, n int) {
	for len(p.Types) < n {
		switch r.Intn(8) {
		case 0, 1, 2:
			p.Types = append(p.Types, pickName(r, cat.Mixed))
		case 3, 4:
			rr := ref.NewRng(uint64(r.Intn(400)) * 104729)
			t := ref.RandSpec(rr, rr.Pick(0, 1), nil)
			p.Types = append(p.Types, t)
			for i := rr.Intn(3); i >= 0; i-- {
				p.Types = append(p.Types, variant(rr, t))
			}
		case 5:
			p.Types = append(p.Types, pickName(r, cat.Recursive), pickName(r, cat.Recursive))
		default:
			p.Types = append(p.Types, randType(r))
		}
	}
}

func genHist(r *ref.Rng, p *Plan) {
	many := 0
	if r.P(8) {
		many = r.Pick(70, 140, 270, 530)
	}
	relatedTypes(r, p, 2+r.Intn(6)+many)
	p.Tasks = 1
	n := 4 + r.Intn(r.Pick(6, 20, 40))
	for i := 0; i < many; i++ {
		p.goodOp(r, 0, i)
	}
	bad := r.Pick(0, 100, 300)
	reuse := r.Pick(0, 0, 300, 800)
	for i := 0; i < n; i++ {
		if r.P(bad) {
			p.badOp(r, 0)
			continue
		}
		p.goodOp(r, 0, r.Intn(len(p.Types)))
		if o := &p.Ops[len(p.Ops)-1]; r.P(reuse) {
			o.D = 1
		}
		for r.P(reuse) && len(p.Ops) < 100 {
			p.again(r)
			if r.P(300) {
				break
			}
		}
		if r.P(150) { // the same call once more, later
			p.Ops = append(p.Ops, p.Ops[r.Intn(len(p.Ops))])
		}
	}
	p.Sched = Sched{Seed: r.U64(), MapSeed: r.U64(), PPoolMiss: r.Pick(0, 0, 100, 500), PPoolAlt: r.Pick(0, 300), PPoolDrop: r.Pick(0, 0, 20)}
}

func runHist(p *Plan, st *Stats) *Violation {
	memo := map[isoKey]isoRes{}
	for i := range p.Ops {
		st.add("history_"+p.Ops[i].K, 1)
	}
	return p.runOps(st, func(i int, o *Op) isoRes {
		if !judged(o) {
			return isoRes{out: anything}
		}
		return p.isolated(st, memo, o)
	}, nil)
}

// ---- C04: rejections ----

const anything = "anything"

// judged tells whether the outcome of an operation is specified.
func judged(o *Op) bool { return o.K != "bad-size" && !(o.K == "arg" && o.V == 2) }

// badOp adds a call that has to be rejected.
func (p *Plan) badOp(r *ref.Rng, task int) {
	o := Op{Task: task}
	// some bytes that name fields of the type
	var b []byte
	for i := r.Intn(3); i >= 0; i-- {
		num := uint32(1 + r.Intn(4))
		switch r.Intn(4) {
		case 0:
			b = lenField(b, num, ref.Encode(randVal(r, ref.Catalog["Leaf"], smallOpts(r)).Elem(), nil))
		case 1:
			b = lenField(b, num, r.Bytes(r.Intn(5)))
		default:
			b = append(b, ref.RawField(r, &ref.Noise{R: r}, num)...)
		}
	}
	o.B = b
	if r.P(250) {
		o.K = "arg"
		o.S = badArgs[r.Intn(len(badArgs))]
		o.V = r.Intn(2)
		if o.V == 1 && r.P(150) {
			o.S = "nilstruct"
		}
	} else {
		o.S = cat.BadNames[r.Intn(len(cat.BadNames))]
		if r.P(400) && len(p.Types) > 0 {
			if tw := cat.Twins[p.Types[r.Intn(len(p.Types))].Cat]; tw != nil {
				o.S = tw[r.Intn(len(tw))]
			}
		}
		o.K = []string{"bad-marshal", "bad-unmarshal", "bad-marshal", "bad-unmarshal", "bad-size"}[r.Intn(5)]
		o.V = r.Pick(0, 0, 0, 1, 2, 3, 4)
	}
	p.Ops = append(p.Ops, o)
}

// wrapBad puts a rejected type into another one.
func wrapBad(t reflect.Type, how int) reflect.Type {
	if how == 0 {
		return t
	}
	pt := reflect.PtrTo(t)
	x := reflect.StructField{Name: "X", Type: pt, Tag: `protobuf:"bytes,2,opt"`}
	switch how {
	case 2:
		x.Type, x.Tag = reflect.SliceOf(pt), `protobuf:"bytes,2,rep"`
	case 3:
		x.Type = reflect.MapOf(reflect.TypeOf(""), pt)
		x.Tag = `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	case 4:
		x.Type = reflect.PtrTo(wrapBad(t, 2))
	}
	l := reflect.PtrTo(ref.Catalog["Leaf"])
	return reflect.StructOf([]reflect.StructField{
		{Name: "L", Type: l, Tag: `protobuf:"bytes,1,opt"`}, x, {Name: "Z", Type: reflect.SliceOf(l), Tag: `protobuf:"bytes,3,rep"`}})
}

// badValue is a value of a rejected type with a few things in it.
func badValue(o *Op) reflect.Value {
	v := reflect.New(wrapBad(cat.Bad[o.S], o.V))
	for i := 0; i < v.Elem().NumField(); i++ {
		f := v.Elem().Field(i)
		if f.Kind() == reflect.Ptr && f.CanSet() && f.Type().Elem().Kind() == reflect.Struct && (len(o.B)+i)%2 == 0 {
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
	return v
}

// shape describes a value of a rejected type: which pointers are set.
func shape(v reflect.Value, depth int) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if depth == 0 {
			return "ptr"
		}
		return "&" + shape(v.Elem(), depth-1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += shape(v.Field(i), depth) + " "
		}
		return s + "}"
	case reflect.Map, reflect.Slice:
		return fmt.Sprint(v.IsNil(), v.Len())
	case reflect.Chan, reflect.Func, reflect.Interface:
		return fmt.Sprint(v.IsNil())
	}
	return fmt.Sprint(v)
}

func genReject(r *ref.Rng, p *Plan) {
	concurrentTypes(r, p)
	if r.P(600) {
		p.Types = append(p.Types, pickName(r, []string{"Leaf", "Out1", "Out2", "Out3", "MA", "List", "Ping", "Pong", "Node"}))
	}
	nt := len(p.Types)
	p.Tasks = r.Pick(1, 2, 2, 3, 4)
	badP := r.Pick(300, 500, 700)
	add := func(task int) {
		if r.P(badP) {
			p.badOp(r, task)
			if r.P(300) { // again, here or elsewhere
				o := p.Ops[len(p.Ops)-1]
				o.Task = r.Intn(p.Tasks)
				if o.K == "bad-marshal" && r.P(500) {
					o.K = "bad-unmarshal"
				}
				p.Ops = append(p.Ops, o)
			}
			return
		}
		p.goodOp(r, task, r.Intn(nt))
	}
	if r.P(300) {
		for i := r.Intn(3); i >= 0; i-- {
			add(-1)
		}
	}
	for t := 0; t < p.Tasks; t++ {
		for i := r.Intn(r.Pick(1, 3, 6)); i >= 0; i-- {
			add(t)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		add(-2)
	}
	p.Sched = randSched(r, p.Tasks)
}

func runReject(p *Plan, st *Stats) *Violation {
	memo := map[isoKey]isoRes{}
	rejected := 0
	for i := range p.Ops {
		st.add("calls_"+p.Ops[i].K, 1)
	}
	v := p.runOps(st, func(i int, o *Op) isoRes {
		switch {
		case !judged(o) || o.K == "bad-unmarshal" && len(o.B) == 0: // nothing to decode
			return isoRes{out: anything, steps: 20000}
		case o.K == "arg":
			rejected++
			return isoRes{out: "error", steps: 20000}
		case o.K == "bad-marshal" || o.K == "bad-unmarshal":
			rejected++
			return isoRes{out: "rejected", steps: 20000}
		}
		return p.isolated(st, memo, o)
	}, nil)
	st.trivial = rejected == 0
	st.add("rejections", rejected)
	return v
}

func init() {
	scenarios["C03"] = &scenario{gen: genHist, run: runHist,
		rule: "a seed draws 2-10 message types that a cache could confuse (same name, same layout with other wire forms or numbers, shared sub-types, recursion) and a history of 4-60 calls on them (valid, damaged, into a filled destination, rejected types and arguments, repeats) with pool losses; each call's result is compared with that of the same call alone in a fresh world; distinct by all results of the run"}
	scenarios["C04"] = &scenario{gen: genReject, run: runReject,
		rule: "a seed draws good types and calls, rejected types (bare or wrapped in a pointer, slice or map of another type) and arguments, spread over a sequential start, 1-4 concurrent tasks and a sequential end, and a schedule; non-trivial if at least one call had to be rejected; distinct by the sequence of switches and all results"}
	commands["badtypes"] = func() {
		for _, n := range cat.BadNames {
			for how := 0; how <= 4; how++ {
				for _, k := range []string{"bad-marshal", "bad-unmarshal", "bad-size"} {
					resetWorld()
					o := Op{K: k, S: n, V: how, B: Hex{8, 1}}
					out, r := (&Plan{}).exec(&o)
					if how == 0 || out != "rejected" {
						fmt.Println(n, how, k, out, r.panicked, r.err)
					}
				}
			}
		}
	}
}

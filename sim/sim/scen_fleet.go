package main

import (
	"fmt"
	"reflect"

	stdproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// C09: a fleet of peers of three kinds passes messages on: each decodes what
// it got and encodes what it read. Kinds: "lib", the library under test;
// "std", google.golang.org/protobuf; "ref", the reference model, which sends
// any of the equivalent wire forms. Thus every implementation is checked
// against the two others.

func genFleet(r *ref.Rng, p *Plan) {
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		switch {
		case len(genNames) > 0 && r.P(500):
			p.Types = append(p.Types, pickName(r, genNames))
		case r.P(150):
			p.Types = append(p.Types, pickName(r, cat.All_))
		default:
			p.Types = append(p.Types, randType(r))
		}
	}
	p.Tasks = r.Pick(1, 1, 2, 3)
	for c := 1 + r.Intn(4); c > 0; c-- { // chains
		t := r.Intn(n)
		task := r.Intn(p.Tasks)
		var o *ref.ValOpts
		if p.Tasks > 1 {
			o = smallOpts(r)
		}
		v := p.addVal(r, t, o)
		last := ""
		for h := 1 + r.Intn(5); h >= 0; h-- {
			k := []string{"lib", "lib", "std", "ref"}[r.Intn(4)]
			if last != "" && last != "lib" && r.P(700) {
				k = "lib"
			}
			last = k
			p.Ops = append(p.Ops, Op{K: "hop", S: k, Task: task, T: t, V: v, A: []int64{int64(r.U64() >> 1), int64(r.Intn(2))}})
		}
		// the last one only reads
		p.Ops = append(p.Ops, Op{K: "read", S: []string{"lib", "lib", "std", "ref"}[r.Intn(4)], Task: task, T: t, V: v})
	}
	p.Sched = randSched(r, p.Tasks)
	p.Sched.PGC = r.Pick(0, 0, 0, 1)
}

type fleet struct {
	p   *Plan
	st  *Stats
	vio *Violation
	msg map[int][]byte // what travels on each chain (by value)
}

func (w *fleet) fail(class, f string, a ...interface{}) {
	if w.vio == nil {
		w.vio = violf(class, f, a...)
	}
}

// hop is what a peer does.
func (w *fleet) hop(i int, o *Op) {
	if w.vio != nil {
		return
	}
	simrt.Pause()
	defer simrt.Resume()
	p := w.p
	t := p.typ(o.T)
	m := ref.Desc(t)
	want := p.Vals[o.V].B
	in, travelling := w.msg[o.V]
	v := reflect.New(t) // what this peer reads
	name := func(what string) string {
		return fmt.Sprintf("operation %d (%s peer %s %s, task %d)", i, o.S, what, p.Types[o.T], o.Task)
	}
	var dm *dynamicpb.Message
	if travelling {
		w.st.Calls++
		w.st.add("read_by_"+o.S, 1)
		switch o.S {
		case "lib":
			simrt.Resume()
			r := doUnmarshal(append(make([]byte, 0, len(in)), in...), v.Interface())
			simrt.Pause()
			if r.panicked != "" || r.err != nil {
				w.fail("result", "%s: %s %v\n  input: %x", name("decoding"), r.panicked, r.err, trunc(in, 300))
				return
			}
		case "std":
			dm = dynamicpb.NewMessage(stdDesc(t))
			if err := (stdproto.UnmarshalOptions{AllowPartial: true}).Unmarshal(in, dm); err != nil {
				w.fail("result", "%s: %v\n  input: %x", name("decoding"), err, trunc(in, 300))
				return
			}
			if err := fromStd(dm, v.Elem(), m); err != nil {
				w.fail("result", "%s: %v\n  input: %x", name("decoding"), err, trunc(in, 300))
				return
			}
		case "ref":
			if st := ref.Merge(in, v.Elem()); st != ref.OK {
				w.fail("result", "%s: %v\n  input: %x", name("decoding"), st, trunc(in, 300))
				return
			}
		}
		c, bad := safeCanon(v)
		w.st.digest(c)
		if bad != "" || !same(c, want) {
			w.fail("result", "%s: not the value that was sent\n  input: %x\n  got:  %s %s\n  want: %s", name("decoding"), trunc(in, 300), safeDump(v), bad, ref.Dump(p.msg(o.V).Elem()))
			return
		}
	} else {
		v = p.msg(o.V)
	}
	if o.K == "read" {
		return
	}
	w.st.Calls++
	w.st.add("written_by_"+o.S, 1)
	var out []byte
	switch o.S {
	case "lib":
		simrt.Resume()
		n := doSize(v.Interface())
		r := doMarshal(v.Interface())
		simrt.Pause()
		if r.panicked != "" || n.panicked != "" || r.err != nil {
			w.fail("result", "%s: %s %s %v\n  value: %s", name("encoding"), n.panicked, r.panicked, r.err, safeDump(v))
			return
		}
		if n.size != len(r.out) {
			w.fail("size", "%s: Size is %d, Marshal gave %d bytes", name("encoding"), n.size, len(r.out))
			return
		}
		out = r.out
	case "std":
		if dm == nil || o.A[1] == 1 {
			dm = toStd(v.Elem(), m, stdDesc(t))
		}
		b, err := stdproto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(dm)
		if err != nil {
			w.fail("result", "%s: %v\n  value: %s", name("encoding"), err, safeDump(v))
			return
		}
		out = b
	case "ref":
		n := randNoise(ref.NewRng(uint64(o.A[0])))
		n.Unknown = 0 // standard peers would pass them on
		out = ref.Encode(v.Elem(), n)
		countNoise(w.st, n)
	}
	w.msg[o.V] = out
}

func runFleet(p *Plan, st *Stats) *Violation {
	if genProblem != "" {
		return violf("generated", "%s", genProblem)
	}
	w := &fleet{p: p, st: st, msg: map[int][]byte{}}
	fns := make([]func(), p.Tasks)
	for t := range fns {
		t := t
		fns[t] = func() {
			for i := range p.Ops {
				if p.Ops[i].Task == t {
					w.hop(i, &p.Ops[i])
				}
			}
		}
	}
	for _, t := range p.Types {
		k := "type_random"
		if len(t.Cat) > 4 && t.Cat[:4] == "gen:" {
			k = "type_generated"
		} else if t.Cat != "" {
			k = "type_catalog"
		}
		st.add(k, 1)
	}
	r := p.sched(st, isolatedCap, 3000, fns)
	if v := schedViolation(&r); v != nil {
		return v
	}
	var lib bool
	for i := range p.Ops {
		lib = lib || p.Ops[i].S == "lib"
	}
	st.trivial = !lib
	return w.vio
}

func init() {
	loadGenTypes()
	scenarios["C09"] = &scenario{gen: genFleet, run: runFleet,
		rule: "a seed draws 1-3 types (half of them written by the real plugin for random proto2 and proto3 files, the rest random or from the catalog), 1-4 chains of 1-6 peers of three kinds (the library, google.golang.org/protobuf, the reference model with random equivalent wire forms) and a random value for each chain; at every hop the value read must be the value sent; non-trivial if the library took part; distinct by all values read and all switches"}
}

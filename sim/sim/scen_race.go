package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// C02: messages and inputs are shared by all tasks, destinations are not.
// Everything that an operation needs is made before the tasks start, so that
// what the tasks touch is the library's doing or one of the shared objects.

func genRace(r *ref.Rng, p *Plan) {
	concurrentTypes(r, p)
	nt := len(p.Types)
	for i := 1 + r.Intn(3); i > 0; i-- {
		p.addVal(r, r.Intn(nt), smallOpts(r))
	}
	shared := len(p.Vals)
	p.Tasks = 2 + r.Intn(3)
	// inputs are values of A: index into shared inputs, made from the first
	// operation that names them
	type input struct {
		t int
		b []byte
	}
	var ins []input
	for i := 1 + r.Intn(3); i > 0; i-- {
		t := r.Intn(nt)
		b := ref.Encode(randVal(r, p.typ(t), smallOpts(r)).Elem(), randNoise(r))
		if r.P(150) {
			b, _ = damage(r, b)
		}
		ins = append(ins, input{t, b})
	}
	op := func(task int) {
		o := Op{Task: task}
		switch r.Intn(10) {
		case 0, 1, 2:
			o.K = "marshal"
		case 3, 4:
			o.K = "size"
		case 5:
			o.K = "read"
		case 6:
			o.K = "readin"
		default:
			o.K = "unmarshal"
		}
		if o.K == "unmarshal" || o.K == "readin" {
			k := r.Intn(len(ins))
			o.T, o.B, o.D = ins[k].t, ins[k].b, k
			o.V = -1
			if o.K == "unmarshal" && r.P(300) { // into something
				o.V = p.addVal(r, o.T, smallOpts(r))
			}
		} else {
			o.V = r.Intn(shared)
			o.T = p.Vals[o.V].T
		}
		p.Ops = append(p.Ops, o)
	}
	if r.P(500) {
		for i := r.Intn(6); i >= 0; i-- {
			op(-1)
		}
	}
	for t := 0; t < p.Tasks; t++ {
		for i := r.Intn(r.Pick(1, 3, 5)); i >= 0; i-- {
			op(t)
		}
	}
	p.Sched = randSched(r, p.Tasks)
}

func runRace(p *Plan, st *Stats) *Violation {
	msgs := make([]reflect.Value, len(p.Vals))
	images := make([]uint64, len(p.Vals))
	for i := range msgs {
		msgs[i] = p.msg(i)
		ref.Canon(msgs[i])
		images[i] = ref.Image(msgs[i])
	}
	for i := range p.Types {
		ref.Canon(reflect.New(p.typ(i)))
	}
	dests := make([]reflect.Value, len(p.Ops))
	inputs := map[int][]byte{}
	own := map[int]bool{}
	in := make([][]byte, len(p.Ops))
	for i := range p.Ops {
		o := &p.Ops[i]
		switch o.K {
		case "unmarshal":
			if o.V >= 0 {
				dests[i] = msgs[o.V]
				own[o.V] = true
			} else {
				dests[i] = reflect.New(p.typ(o.T))
			}
			fallthrough
		case "readin":
			if inputs[o.D] == nil {
				inputs[o.D] = append(make([]byte, 0, len(o.B)+16), o.B...)
			}
			in[i] = inputs[o.D]
		}
	}
	res := make([]result, len(p.Ops))
	sums := make([]int, len(p.Ops))
	exec := func(task int) func() {
		return func() {
			for i := range p.Ops {
				o := &p.Ops[i]
				if o.Task != task {
					continue
				}
				switch o.K {
				case "marshal":
					res[i] = doMarshal(msgs[o.V].Interface())
				case "size":
					res[i] = doSize(msgs[o.V].Interface())
				case "unmarshal":
					res[i] = doUnmarshal(in[i], dests[i].Interface())
				case "read":
					simrt.Pause()
					sums[i] = len(ref.Canon(msgs[o.V]))
					simrt.Resume()
				case "readin":
					n := 0
					for _, c := range in[i] {
						n += int(c)
					}
					sums[i] = n
				}
			}
		}
	}
	resetWorld()
	before := simrt.RaceErrors()
	if p.has(-1) {
		r := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed ^ 0x55, OpCap: isolatedCap}, []func(){exec(-1)})
		if v := schedViolation(&r); v != nil {
			return v
		}
	}
	fns := make([]func(), p.Tasks)
	for t := range fns {
		fns[t] = exec(t)
	}
	r := p.sched(st, isolatedCap, uint64(3000*len(p.Ops)/p.Tasks), fns)
	if v := schedViolation(&r); v != nil {
		return v
	}
	st.trivial = r.Switches == 0
	st.Calls += int64(len(p.Ops))
	for i := range p.Ops {
		st.digest([]byte(errClass(res[i].err)))
		if res[i].panicked != "" {
			return violf("panic", "operation %d (%s, task %d): %s", i, p.opName(&p.Ops[i]), p.Ops[i].Task, res[i].panicked)
		}
		st.add("calls_"+p.Ops[i].K, 1)
	}
	if simrt.RaceErrors() > before {
		return violf("race", "the race detector reported conflicting accesses:\n%s", raceReport())
	}
	for i := range msgs {
		if own[i] {
			continue
		}
		if c, bad := safeCanon(msgs[i]); bad != "" || !same(c, p.Vals[i].B) {
			return violf("changed", "shared message %d (%s) was changed by encoding: %s %s", i, p.Types[p.Vals[i].T], safeDump(msgs[i]), bad)
		}
		if ref.Image(msgs[i]) != images[i] {
			return violf("changed", "encoding wrote to shared message %d (%s): %s", i, p.Types[p.Vals[i].T], safeDump(msgs[i]))
		}
	}
	for i := range p.Ops {
		if in[i] != nil && !same(in[i], p.Ops[i].B) {
			return violf("changed", "a shared input was changed by operation %d or another", i)
		}
	}
	return nil
}

// raceReport is the last report of the race detector.
func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			b, _ := ioutil.ReadFile(f[len("log_path="):] + fmt.Sprintf(".%d", os.Getpid()))
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			var o []string
			for _, l := range strings.Split(s, "\n") {
				if len(o) < 40 && !strings.Contains(l, "verifsim/sim/") {
					o = append(o, l)
				}
			}
			return strings.Join(o, "\n")
		}
	}
	return "(see standard error)"
}

func init() {
	scenarios["C02"] = &scenario{gen: genRace, run: runRace,
		rule: "a seed draws related types, 1-3 shared messages, 1-3 shared inputs and 2-4 tasks that encode, size and read the shared messages and decode the shared inputs into destinations of their own, with or without earlier use of the types, under a random schedule with the race detector watching (simulated synchronisation gives it the happens-before edges, the scheduler's own hand-overs none); non-trivial if tasks were switched; distinct by the sequence of switches and all results"}
}

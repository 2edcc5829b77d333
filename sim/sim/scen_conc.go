package main

import (
	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// concurrentTypes draws the types of a concurrent plan, related to each other
// more often than not.
func concurrentTypes(r *ref.Rng, p *Plan) {
	n := 1 + r.Intn(4)
	var group []string
	switch r.Intn(6) {
	case 0:
		group = []string{"MA", "MB", "MC", "Leaf"}
	case 1:
		group = []string{"Leaf", "Out1", "Out2", "Out3", "MA", "MB", "All"}
	case 2:
		group = cat.Recursive
	case 3:
		group = cat.Mixed
	}
	for i := 0; i < n; i++ {
		switch {
		case group != nil && r.P(850):
			p.Types = append(p.Types, pickName(r, group))
		default:
			p.Types = append(p.Types, randType(r))
		}
	}
}

// goodOp adds an operation of a task on type t.
func (p *Plan) goodOp(r *ref.Rng, task, t int) {
	o := smallOpts(r)
	switch r.Intn(10) {
	case 0, 1, 2:
		p.Ops = append(p.Ops, Op{K: "marshal", Task: task, T: t, V: p.addVal(r, t, o)})
	case 3:
		p.Ops = append(p.Ops, Op{K: "size", Task: task, T: t, V: p.addVal(r, t, o)})
	case 4:
		d := p.addVal(r, t, o)
		b := ref.Encode(randVal(r, p.typ(t), smallOpts(r)).Elem(), randNoise(r))
		p.Ops = append(p.Ops, Op{K: "umerge", Task: task, T: t, V: d, B: b})
	case 5:
		b := ref.Encode(randVal(r, p.typ(t), o).Elem(), randNoise(r))
		b, _ = damage(r, b)
		p.Ops = append(p.Ops, Op{K: "unmarshal", Task: task, T: t, B: b})
	default:
		b := ref.Encode(randVal(r, p.typ(t), o).Elem(), randNoise(r))
		p.Ops = append(p.Ops, Op{K: "unmarshal", Task: task, T: t, B: b})
	}
}

func genConc(r *ref.Rng, p *Plan) {
	concurrentTypes(r, p)
	p.Tasks = 2 + r.Intn(3)
	if r.P(100) {
		p.Tasks = 5 + r.Intn(3)
	}
	nt := len(p.Types)
	if r.P(300) {
		for i := r.Intn(3); i >= 0; i-- {
			p.goodOp(r, -1, r.Intn(nt))
		}
	}
	reuse := r.Pick(0, 0, 0, 500)
	sameFirst := r.P(600)
	first := r.Intn(nt)
	for t := 0; t < p.Tasks; t++ {
		n := 1 + r.Intn(r.Pick(1, 2, 4, 6))
		for i := 0; i < n; i++ {
			ty := r.Intn(nt)
			if i == 0 && sameFirst {
				ty = first
			}
			p.goodOp(r, t, ty)
			if r.P(reuse) {
				p.Ops[len(p.Ops)-1].D = 1
			}
			if r.P(reuse) {
				p.again(r)
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		p.goodOp(r, -2, r.Intn(nt))
	}
	p.Sched = randSched(r, p.Tasks)
}

func runConc(p *Plan, st *Stats) *Violation {
	memo := map[isoKey]isoRes{}
	return p.runOps(st, func(i int, o *Op) isoRes { return p.isolated(st, memo, o) }, nil)
}

func init() {
	scenarios["C01"] = &scenario{gen: genConc, run: runConc,
		rule: "a seed draws 1-4 related or random message types, 2-7 tasks with 1-6 calls each (half of the plans start all tasks on the same unused type), and a schedule (random gaps, PCT, hot functions or sites, sync points) over every statement of the library; a run is non-trivial if the scheduler switched tasks inside a call at least once; distinct by the sequence of (task, site) of its switches together with all results"}
}

package main

import (
	"sort"

	"github.com/RomiChan/protobuf/verifsim/ref"
)

// The network and disk between the nodes are simulated when a plan is made:
// every message becomes zero or more deliveries with a time, in the order in
// which they arrive. What the faults did is part of the plan.

type netFaults struct {
	drop, dup, delay, coalesce, split, trunc, garble int // per mille
}

// randNet draws a fault mix; lossless leaves out what loses data.
func randNet(r *ref.Rng, lossless bool) netFaults {
	on := func(v ...int) int {
		if r.P(500) {
			return r.Pick(v...)
		}
		return 0
	}
	f := netFaults{dup: on(50, 300), delay: on(200, 600), coalesce: on(200, 600), split: on(200, 600)}
	if !lossless {
		f.drop = on(50, 300)
	}
	return f
}

type packet struct {
	at int64
	to int // slot
	b  []byte
	ok bool // arrives as it was sent
}

func (p *Plan) count(k string, n int) {
	if n == 0 {
		return
	}
	if p.P == nil {
		p.P = map[string]int64{}
	}
	p.P[k] += int64(n)
}

// network passes packets through the faulty network and returns what arrives,
// by time.
func (p *Plan) network(r *ref.Rng, f netFaults, in []packet) []packet {
	var out []packet
	for _, x := range in {
		if r.P(f.drop) {
			p.count("net_drop", 1)
			continue
		}
		n := 1
		if r.P(f.dup) {
			n = 2
			p.count("net_duplicate", 1)
		}
		for k := 0; k < n; k++ {
			y := x
			y.ok = true
			y.at += int64(50 + r.Intn(200))
			if r.P(f.delay) {
				y.at += int64(r.Intn(5000))
				p.count("net_delay", 1)
			}
			if r.P(f.trunc) && len(y.b) > 0 {
				y.b = y.b[:r.Intn(len(y.b))]
				y.ok = false
				p.count("net_truncate", 1)
			}
			if r.P(f.garble) {
				var what string
				for i := r.Intn(3); i >= 0; i-- {
					y.b, what = damage(r, y.b)
					p.count("dmg_"+what, 1)
				}
				y.ok = false
			}
			// split between top-level fields: the parts are messages, too
			if r.P(f.split) {
				raws, _ := ref.Scan(y.b)
				if len(raws) > 1 {
					at := raws[1+r.Intn(len(raws)-1)].Start
					z := y
					z.b = y.b[at:]
					y.b = y.b[:at:at]
					z.at += int64(r.Intn(100))
					out = append(out, y, z)
					p.count("net_split", 1)
					continue
				}
			}
			out = append(out, y)
		}
	}
	for i := 1; i < len(out); i++ {
		if out[i].at < out[i-1].at {
			p.count("net_reorder", 1)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].at < out[j].at })
	// messages that arrive one after the other may be read as one
	var co []packet
	for _, x := range out {
		if n := len(co); n > 0 && co[n-1].to == x.to && co[n-1].ok && x.ok && r.P(f.coalesce) {
			b := append([]byte(nil), co[n-1].b...)
			co[n-1].b = append(b, x.b...)
			p.count("net_coalesce", 1)
			continue
		}
		co = append(co, x)
	}
	return co
}

// encodings draws an encoded message of type t.
func (p *Plan) encoding(r *ref.Rng, t int, o *ref.ValOpts) []byte {
	v := randVal(r, p.typ(t), o)
	n := randNoise(r)
	b := ref.Encode(v.Elem(), n)
	for i, c := range n.Count {
		p.count("net_form_"+noiseNames[i], c)
	}
	return b
}

// placement draws where the input of a decode lies and what happens to the
// memory afterwards.
func placement(r *ref.Rng) []int64 {
	return []int64{int64(r.Pick(0, 1, 2, 3)), int64(r.Pick(0, 0, 1, 2)), int64(r.Intn(1 << 30))}
}

// fleetTypes draws a few types for a world.
func fleetTypes(r *ref.Rng, p *Plan) {
	for i := r.Pick(1, 1, 2, 3); i > 0; i-- {
		p.Types = append(p.Types, randType(r))
	}
}

// lightSched draws a schedule for a world in which the interleaving matters
// less.
func lightSched(r *ref.Rng, tasks int) Sched {
	s := Sched{Seed: r.U64(), MapSeed: r.U64()}
	if tasks > 1 {
		s.Mode = r.Pick(1, 1, 3, 4)
		s.Gap = uint64(r.Pick(30, 150, 600, 2500))
		if s.Mode == 3 {
			return randSched(r, tasks)
		}
	}
	if r.P(400) {
		s.PPoolMiss = r.Pick(50, 300, 700)
	}
	if r.P(400) {
		s.PPoolAlt = r.Pick(100, 500)
	}
	return s
}

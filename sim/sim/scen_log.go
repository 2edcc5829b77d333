package main

import (
	"errors"
	"io"
	"reflect"
	"runtime/debug"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// A log in the style that protobuf invites: one repeated field, to which
// writers append encoded records, so that the file as a whole is one message.
// Writers run concurrently; a record goes to the file in several writes
// between which the process may die, and only what was synced, plus some
// prefix of the rest, survives. A new process then reads what is there.

type disk struct {
	data   []byte
	synced int
}

func genLog(r *ref.Rng, p *Plan) {
	p.Mode = "log"
	// type 0: the record; type 1: the file
	rec := randSpec(r)
	if r.P(400) {
		rec = randType(r)
	}
	p.Types = []*ref.TSpec{rec, {F: []ref.FSpec{{N: uint32(r.Pick(1, 2, 15, 16)), K: "message", C: "rep", Sub: rec}}}}
	p.Tasks = 1 + r.Intn(3)
	for i := 1 + r.Intn(6); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: "append", Task: r.Intn(p.Tasks), V: p.addVal(r, 0, smallOpts(r)), A: []int64{int64(r.Intn(1 << 30)), int64(r.Intn(2))}})
	}
	p.Sched = randSched(r, p.Tasks)
	if r.P(800) {
		p.P = map[string]int64{"crash_task": int64(r.Intn(p.Tasks)), "crash_write": int64(1 + r.Intn(8))}
	}
	p.count("torn", r.Intn(1<<20))
}

func runLog(p *Plan, st *Stats) *Violation {
	d := &disk{}
	num := p.Types[1].F[0].N
	type entry struct {
		task  int
		val   int
		end   int
		acked bool
	}
	var entries []*entry
	var vio *Violation
	writes := map[int]int64{}
	dead := false
	fns := make([]func(), p.Tasks)
	for t := range fns {
		t := t
		fns[t] = func() {
			for i := range p.Ops {
				o := &p.Ops[i]
				if o.Task != t || vio != nil || dead {
					continue
				}
				m := p.msg(o.V)
				st.Calls++
				res := doMarshal(m.Interface())
				if res.err != nil || res.panicked != "" {
					vio = violf("result", "Marshal of %s: %v %s", p.Types[0], res.err, res.panicked)
					return
				}
				frame := ref.AppendVarint(nil, uint64(num)<<3|2)
				frame = ref.AppendVarint(frame, uint64(len(res.out)))
				frame = append(frame, res.out...)
				e := &entry{task: t, val: o.V, end: len(d.data) + len(frame)}
				entries = append(entries, e)
				// the log is locked while the record is written, in pieces
				r := ref.NewRng(uint64(o.A[0]))
				for len(frame) > 0 {
					n := 1 + r.Intn(len(frame))
					writes[t]++
					if p.P["crash_write"] > 0 && int64(t) == p.P["crash_task"] && writes[t] == p.P["crash_write"] {
						// dies within this write
						d.data = append(d.data, frame[:r.Intn(n+1)]...)
						dead = true
						simrt.Kill()
						return
					}
					d.data = append(d.data, frame[:n]...)
					frame = frame[n:]
				}
				if o.A[1] == 1 {
					d.synced = len(d.data)
					for _, x := range entries {
						x.acked = true
					}
					st.add("dsk_sync", 1)
				}
			}
		}
	}
	r := p.sched(st, isolatedCap, 3000, fns)
	if v := schedViolation(&r); v != nil {
		return v
	}
	if vio != nil {
		return vio
	}
	if !dead {
		st.trivial = true
	}
	// what the disk still has
	left := d.synced
	if un := len(d.data) - d.synced; un > 0 {
		left += int(p.P["torn"] % int64(un+1))
		if left < len(d.data) {
			st.add("dsk_torn_tail", 1)
		}
	}
	survived := d.data[:left]
	// a new process
	resetWorld()
	ft := p.typ(1)
	dst := reflect.New(ft)
	var res result
	x := simrt.Run(simrt.Config{MapSeed: p.Sched.MapSeed, OpCap: isolatedCap}, []func(){func() {
		debug.SetPanicOnFault(true)
		res = doUnmarshal(guardBuf(0, survived), dst.Interface())
	}})
	st.Steps += x.Steps
	st.Calls++
	if v := schedViolation(&x); v != nil {
		return v
	}
	if res.panicked != "" {
		return violf("panic", "reading the log: %s", res.panicked)
	}
	whole := 0 // records that survived completely
	boundary := left == 0
	for _, e := range entries {
		if e.end <= left {
			whole++
		}
		if e.end == left {
			boundary = true
		}
		if e.acked && e.end > left {
			return violf("model", "a synced record is lost")
		}
	}
	st.digest([]byte(errClass(res.err)))
	if !boundary {
		if !errors.Is(res.err, io.ErrUnexpectedEOF) {
			return violf("cut-not-reported", "the log ends inside of record %d, Unmarshal returned %v\n  log: %x", whole, res.err, trunc(survived, 400))
		}
		return nil
	}
	if res.err != nil {
		return violf("result", "the log ends between records, Unmarshal returned %v\n  log: %x", res.err, trunc(survived, 400))
	}
	got := dst.Elem().Field(ref.Desc(ft).Fields[0].Idx)
	if got.Len() != whole {
		return violf("result", "the log has %d records, %d were read", whole, got.Len())
	}
	k := 0
	for _, e := range entries {
		if e.end > left {
			continue
		}
		if c := ref.Canon(got.Index(k)); !same(c, p.Vals[e.val].B) {
			return violf("result", "record %d was read as %s, written was %s", k, ref.Dump(got.Index(k).Elem()), ref.Describe(p.typ(0), p.Vals[e.val].B))
		}
		st.digest(p.Vals[e.val].B)
		k++
	}
	return nil
}

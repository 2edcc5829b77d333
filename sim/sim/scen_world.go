package main

import (
	"reflect"

	"github.com/RomiChan/protobuf/verifsim/ref"
)

// slot adds a message variable.
func (p *Plan) slot(r *ref.Rng, t int, filled bool) int {
	s := SlotSpec{T: t}
	if filled {
		s.V = p.addVal(r, t, nil) + 1
	}
	p.Slots = append(p.Slots, s)
	return len(p.Slots) - 1
}

func (p *Plan) deliver(r *ref.Rng, owner []int, in []packet) {
	for _, x := range in {
		p.Ops = append(p.Ops, Op{K: "recv", Task: owner[x.to], D: x.to, B: x.b, A: placement(r), At: x.at})
	}
}

// ---- C05 hostile bytes ----

func hostile(r *ref.Rng, p *Plan, t int) []byte {
	switch r.Intn(20) {
	case 0:
		p.count("dmg_garbage", 1)
		return r.Bytes(1 + r.Intn(60))
	case 1:
		p.count("dmg_nesting_bomb", 1)
		return bomb(r, p.typ(t), r.Pick(5, 10, 30, 100, 100, 300, 300, 300, 300, 300, 1000, 1000, 1000, 1000, 4000))
	case 2:
		p.count("dmg_amplification", 1)
		return amplify(r, p.typ(t))
	case 3: // of another type
		p.count("dmg_wrong_type", 1)
		return ref.Encode(randVal(r, randType(r).Type(), nil).Elem(), randNoise(r))
	case 4: // two halves
		p.count("dmg_splice", 1)
		a := p.encoding(r, t, nil)
		b := p.encoding(r, t, nil)
		if len(a) == 0 || len(b) == 0 {
			return append(a, b...)
		}
		return append(append([]byte(nil), a[:r.Intn(len(a))]...), b[r.Intn(len(b)):]...)
	case 5: // fields with the right numbers and any contents
		p.count("dmg_field_garbage", 1)
		var b []byte
		n := &ref.Noise{R: r, PadVarint: r.Pick(0, 300)}
		for i := r.Intn(8); i >= 0; i-- {
			b = append(b, garbageField(r, n, ref.Desc(p.typ(t)))...)
		}
		return b
	}
	b := p.encoding(r, t, nil)
	for i := r.Pick(0, 0, 1, 3); i >= 0; i-- {
		var what string
		b, what = damage(r, b)
		p.count("dmg_"+what, 1)
	}
	return b
}

// garbageField is a field that the type knows, with a wire type and contents
// that may be anything, nested a few levels.
func garbageField(r *ref.Rng, n *ref.Noise, m *ref.Msg) []byte {
	if len(m.Fields) == 0 {
		return ref.RawField(r, n, uint32(1+r.Intn(30)))
	}
	f := m.Fields[r.Intn(len(m.Fields))]
	if f.Msg != nil && r.P(500) {
		var c []byte
		for i := r.Intn(3); i > 0 && len(c) < 300; i-- {
			c = append(c, garbageField(r, n, f.Msg)...)
		}
		if f.Card == ref.Map {
			c = lenField(lenField(nil, 2, c), 1, r.Bytes(r.Intn(4)))
		}
		return lenField(nil, f.Num, c)
	}
	wire := f.Kind.Wire()
	if f.Card == ref.Map {
		wire = 2
	}
	if r.P(200) {
		wire = r.Intn(8)
	}
	b := ref.AppendVarint(nil, uint64(f.Num)<<3|uint64(wire))
	switch wire {
	case 0:
		return ref.AppendVarint(b, r.Bits())
	case 1:
		return append(b, r.Bytes(8)...)
	case 5:
		return append(b, r.Bytes(4)...)
	case 2:
		s := r.Bytes(r.Len())
		l := uint64(len(s))
		if r.P(150) {
			l = r.Bits()
		}
		return append(ref.AppendVarint(b, l), s...)
	}
	return append(b, r.Bytes(r.Intn(4))...)
}

func lenField(b []byte, num uint32, c []byte) []byte {
	b = ref.AppendVarint(b, uint64(num)<<3|2)
	b = ref.AppendVarint(b, uint64(len(c)))
	return append(b, c...)
}

// canNest tells whether messages of m contain messages that contain messages.
func msgFields(m *ref.Msg) []*ref.Field {
	var fs []*ref.Field
	for _, f := range m.Fields {
		if f.Msg != nil {
			fs = append(fs, f)
		}
	}
	return fs
}

// bomb nests messages as deep as the type allows, at most depth levels.
func bomb(r *ref.Rng, t reflect.Type, depth int) []byte {
	m := ref.Desc(t)
	var path []*ref.Field
	for len(path) < depth {
		fs := msgFields(m)
		if len(fs) == 0 {
			break
		}
		// prefer fields whose type nests further
		f := fs[r.Intn(len(fs))]
		for i := 0; i < 6 && len(msgFields(f.Msg)) == 0; i++ {
			f = fs[r.Intn(len(fs))]
		}
		path = append(path, f)
		m = f.Msg
	}
	// prefixes from the innermost outwards
	n := 0
	var pre [][]byte
	for i := len(path) - 1; i >= 0; i-- {
		f := path[i]
		if f.Card == ref.Map {
			x := ref.AppendVarint([]byte{2<<3 | 2}, uint64(n))
			pre = append(pre, x)
			n += len(x)
		}
		x := ref.AppendVarint(nil, uint64(f.Num)<<3|2)
		x = ref.AppendVarint(x, uint64(n))
		pre = append(pre, x)
		n += len(x)
	}
	b := make([]byte, 0, n)
	for i := len(pre) - 1; i >= 0; i-- {
		b = append(b, pre[i]...)
	}
	if r.P(300) && len(b) > 0 {
		b = b[:len(b)-r.Intn(min(len(b), 4))]
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// amplify makes input of which every few bytes create an object.
func amplify(r *ref.Rng, t reflect.Type) []byte {
	m := ref.Desc(t)
	var b []byte
	n := r.Pick(50, 300, 1500)
	if len(m.Fields) == 0 {
		return r.Bytes(4)
	}
	f := m.Fields[r.Intn(len(m.Fields))]
	var one []byte
	switch {
	case f.Card == ref.Map:
		one = lenField(nil, f.Num, nil)
		if r.P(500) {
			one = lenField(nil, f.Num, ref.RawField(r, &ref.Noise{R: r}, 1))
		}
	case f.Kind.Wire() == 2:
		one = lenField(nil, f.Num, nil)
		if f.Msg != nil && r.P(600) {
			inner := amplify(r, f.Msg.Type)
			if len(inner) > 2000 {
				inner = inner[:0]
			}
			one = lenField(nil, f.Num, inner)
		}
	default:
		one = ref.AppendVarint(nil, uint64(f.Num)<<3|uint64(f.Kind.Wire()))
		one = append(one, make([]byte, []int{1, 8, 0, 0, 0, 4}[f.Kind.Wire()])...)
	}
	for i := 0; i < n && len(b) < 60000; i++ {
		b = append(b, one...)
	}
	return b
}

func genHostile(r *ref.Rng, p *Plan) {
	fleetTypes(r, p)
	p.Tasks = r.Pick(1, 1, 1, 2)
	var owner []int
	n := r.Pick(1, 2, 4)
	for i := 0; i < n; i++ {
		d := p.slot(r, r.Intn(len(p.Types)), r.P(400))
		owner = append(owner, r.Intn(p.Tasks))
		at := int64(r.Intn(1000))
		for k := 1 + r.Intn(4); k > 0; k-- {
			at += int64(r.Intn(300))
			p.Ops = append(p.Ops, Op{K: "recv", Task: owner[d], D: d, B: hostile(r, p, p.Slots[d].T), A: placement(r), At: at})
			switch r.Intn(4) {
			case 0:
				p.Ops = append(p.Ops, Op{K: "fresh", Task: owner[d], D: d, At: at})
			case 1:
				p.Ops = append(p.Ops, Op{K: "keep", Task: owner[d], D: d, At: at})
			}
			if r.P(500) {
				// the next message is intact and must arrive
				p.Ops = append(p.Ops, Op{K: "fresh", Task: owner[d], D: d, V: r.Intn(2) * p.Slots[d].V, At: at},
					Op{K: "recv", Task: owner[d], D: d, B: p.encoding(r, p.Slots[d].T, nil), A: placement(r), At: at})
			}
		}
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runHostile(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	w.alloc, w.canary = true, true
	v := w.run()
	st.add("decodes_of_damaged_input", w.nFail)
	st.add("decodes_of_valid_input", w.nOK)
	return v
}

// ---- C06 cut short ----

func genCut(r *ref.Rng, p *Plan) {
	if r.P(300) {
		genLog(r, p)
		return
	}
	p.Mode = "cut"
	p.Types = append(p.Types, randType(r))
	p.Tasks = r.Pick(1, 1, 2)
	b := p.encoding(r, 0, nil)
	d := p.slot(r, 0, r.P(200))
	var cuts []int
	switch {
	case len(b) <= 48:
		for i := 0; i < len(b); i++ {
			cuts = append(cuts, i)
		}
	default:
		for i := 0; i < 32; i++ {
			cuts = append(cuts, r.Intn(len(b)))
		}
		cuts = append(cuts, len(b)-1)
		// between the top-level fields, and next to that
		raws, _ := ref.Scan(b)
		for i := 0; i < 6 && len(raws) > 0; i++ {
			x := raws[r.Intn(len(raws))]
			cuts = append(cuts, x.Start, x.Val, x.End-1)
		}
	}
	for _, c := range cuts {
		task := r.Intn(p.Tasks)
		if p.Tasks > 1 {
			for len(p.Slots) < p.Tasks {
				p.slot(r, 0, false)
			}
			d = task
		}
		a := placement(r)
		a[1] = 0
		p.Ops = append(p.Ops, Op{K: "recv", Task: task, D: d, B: b[:c:c], A: a})
		p.Ops = append(p.Ops, Op{K: "fresh", Task: task, D: d, V: p.Slots[d].V})
		p.count("net_truncate", 1)
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runCut(p *Plan, st *Stats) *Violation {
	if p.Mode == "log" {
		return runLog(p, st)
	}
	w := newWorld(p, st)
	w.wantEOF = true
	v := w.run()
	st.add("prefixes_cut_inside", w.nFail)
	st.add("prefixes_cut_between_fields", w.nOK)
	return v
}

// ---- C07 merging deliveries ----

func genMerge(r *ref.Rng, p *Plan) {
	fleetTypes(r, p)
	p.Tasks = r.Pick(1, 2, 3)
	var owner []int
	for i := r.Pick(1, 2, 3); i > 0; i-- {
		p.slot(r, r.Intn(len(p.Types)), r.P(500))
		owner = append(owner, r.Intn(p.Tasks))
	}
	var in []packet
	at := int64(0)
	for i := 1 + r.Intn(6); i > 0; i-- {
		d := r.Intn(len(p.Slots))
		at += int64(r.Intn(400))
		in = append(in, packet{at: at, to: d, b: p.encoding(r, p.Slots[d].T, nil)})
	}
	f := randNet(r, false)
	f.dup, f.coalesce, f.split = r.Pick(100, 400), r.Pick(0, 300, 1000), r.Pick(0, 300, 700)
	got := p.network(r, f, in)
	p.deliver(r, owner, got)
	// the same bytes in one piece, into a twin
	n := len(p.Slots)
	for d := 0; d < n; d++ {
		if !r.P(600) {
			continue
		}
		var all []byte
		for _, x := range got {
			if x.to == d {
				all = append(all, x.b...)
			}
		}
		p.Slots = append(p.Slots, p.Slots[d])
		p.Ops = append(p.Ops, Op{K: "recv", Task: owner[d], D: len(p.Slots) - 1, B: all, A: placement(r), At: at})
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runMerge(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	v := w.run()
	st.add("deliveries", w.nOK)
	return v
}

// ---- C08 versions ----

// pairs of hand-written types in an old and a new version
var versions = [][2]string{{"NodeOld", "Node"}, {"LeafOld", "Leaf"}, {"AllOld", "All"}, {"MAOld", "MA"}, {"Empty", "All"}, {"Empty", "Node"}, {"FarOld", "Far"}, {"Out3Old", "Out3"}}

func genVersions(r *ref.Rng, p *Plan) {
	// types: versions of one schema; type 0 is the newest
	if r.P(350) {
		v := versions[r.Intn(len(versions))]
		p.Types = []*ref.TSpec{catSpec(v[1]), catSpec(v[0])}
	} else {
		full := randSpec(r)
		p.Types = append(p.Types, full)
		for i := r.Pick(1, 1, 2); i > 0; i-- {
			// a bounded number of projections of every type
			p.Types = append(p.Types, full.Project(ref.NewRng(uint64(r.Intn(3))+full.Hash()), r.Pick(200, 500)))
		}
	}
	p.Tasks = r.Pick(1, 1, 2)
	var owner []int
	for i := r.Pick(1, 2, 3); i > 0; i-- {
		p.slot(r, r.Intn(len(p.Types)), r.P(200))
		owner = append(owner, r.Intn(p.Tasks))
	}
	var in []packet
	at := int64(0)
	for i := 1 + r.Intn(5); i > 0; i-- {
		d := r.Intn(len(p.Slots))
		at += int64(r.Intn(400))
		from := r.Intn(len(p.Types))
		v := randVal(r, p.typ(from), nil)
		n := randNoise(r)
		if r.P(400) {
			n.Unknown = r.Pick(50, 200, 500)
		}
		b := ref.Encode(v.Elem(), n)
		for i, c := range n.Count {
			p.count("net_form_"+noiseNames[i], c)
		}
		in = append(in, packet{at: at, to: d, b: b})
		if from != p.Slots[d].T {
			p.count("net_other_version", 1)
		}
	}
	p.deliver(r, owner, p.network(r, randNet(r, false), in))
	if r.P(300) {
		d := r.Intn(len(p.Slots))
		p.Ops = append(p.Ops, Op{K: "send", Task: owner[d], D: d, At: at})
	}
	p.Sched = lightSched(r, p.Tasks)
}

// ---- C10 ownership ----

func genOwn(r *ref.Rng, p *Plan) {
	fleetTypes(r, p)
	p.Tasks = r.Pick(1, 1, 2, 3)
	var owner []int
	for i := 2 + r.Intn(4); i > 0; i-- {
		p.slot(r, r.Intn(len(p.Types)), r.P(400))
		owner = append(owner, r.Intn(p.Tasks))
	}
	var last []byte
	at := int64(0)
	for i := 3 + r.Intn(10); i > 0; i-- {
		d := r.Intn(len(p.Slots))
		at += int64(r.Intn(200))
		o := Op{Task: owner[d], D: d, At: at}
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			o.K = "recv"
			o.B = p.encoding(r, p.Slots[d].T, nil)
			if r.P(200) && last != nil { // the same bytes once more
				o.B = last
			}
			last = o.B
			o.A = []int64{int64(r.Pick(0, 1, 2, 2)), int64(r.Pick(1, 1, 2)), int64(r.Intn(1 << 30))}
			if r.P(120) {
				var what string
				o.B, what = damage(r, o.B)
				p.count("dmg_"+what, 1)
			}
		case 4, 5, 6:
			o.K = "send"
		case 7:
			o.K = "vandal"
			o.A = []int64{int64(r.Intn(1 << 30))}
		case 8:
			o.K = "outgarble"
			o.A = []int64{int64(r.Intn(1 << 30))}
		case 9:
			switch r.Intn(4) {
			case 0:
				o.K = "zero"
			case 1:
				o.K = "keep"
			default:
				o.K = "recycle"
				o.A = []int64{int64(r.Intn(1 << 30)), int64(r.Intn(4))}
			}
		}
		p.Ops = append(p.Ops, o)
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runOwn(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	w.everything = true
	v := w.run()
	st.add("outputs_kept_and_compared", len(w.outs))
	return v
}

// ---- C11 residue ----

func genResidue(r *ref.Rng, p *Plan) {
	fleetTypes(r, p)
	p.Tasks = r.Pick(1, 1, 1, 2)
	var owner []int
	for i := r.Pick(1, 1, 2, 3); i > 0; i-- {
		p.slot(r, r.Intn(len(p.Types)), r.P(300))
		owner = append(owner, r.Intn(p.Tasks))
	}
	at := int64(0)
	for i := 2 + r.Intn(8); i > 0; i-- {
		d := r.Intn(len(p.Slots))
		at += int64(r.Intn(200))
		b := p.encoding(r, p.Slots[d].T, nil)
		if r.P(400) {
			var what string
			b, what = damage(r, b)
			p.count("dmg_"+what, 1)
		}
		p.Ops = append(p.Ops, Op{K: "recv", Task: owner[d], D: d, B: b, A: placement(r), At: at})
		o := Op{Task: owner[d], D: d, At: at}
		switch r.Intn(8) {
		case 0:
			o.K = "fresh"
		case 1:
			o.K = "zero"
		case 2:
			o.K = "keep"
		case 3:
			o.K = "vandal"
			o.A = []int64{int64(r.Intn(1 << 30))}
		default:
			o.K = "recycle"
			o.A = []int64{int64(r.Intn(1 << 30)), int64(r.Pick(0, 1, 5))}
		}
		p.Ops = append(p.Ops, o)
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runResidue(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	v := w.run()
	st.add("decodes_failed", w.nFail)
	st.add("decodes_ok", w.nOK)
	return v
}

// ---- C14 memory reclamation ----

func genGC(r *ref.Rng, p *Plan) {
	genOwn(r, p)
	for i := range p.Ops {
		if p.Ops[i].K == "recv" && p.Ops[i].A[0] == 3 {
			p.Ops[i].A[0] = 0
		}
	}
	s := &p.Sched
	if s.Mode == 0 {
		s.Mode = 1
	}
	s.Hot = nil
	if s.Mode == 3 || s.Mode == 2 {
		s.Mode = 1
	}
	s.Gap = uint64(r.Pick(20, 60, 200, 600))
	s.PGC = r.Pick(20, 60, 200)
	s.PStack = r.Pick(0, 30, 200)
	s.PPoolDrop = r.Pick(0, 30, 200)
	if r.P(400) { // collections that go on while the program runs
		s.PMark = r.Pick(100, 300, 700)
		s.PGC = r.Pick(0, 0, 20)
	}
}

func runGC(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	v := w.run()
	if v == nil {
		gcNow()
		w.checkAll("after a last collection")
		v = w.vio
	}
	st.add("outputs_kept_and_compared", len(w.outs))
	return v
}

func init() {
	scenarios["C05"] = &scenario{gen: genHostile, run: runHostile,
		rule: "a seed draws 1-3 types and 1-4 destinations on 1-2 nodes, and 1-4 hostile inputs each (valid encodings with 1-3 faults, garbage, wrong type, splices, nesting bombs, amplification), placed in exact, spare-capacity, reused or guard-paged memory, with intact messages in between; distinct by the results"}
	scenarios["C17"] = &scenario{gen: genStrict, run: runStrict,
		rule: "a seed draws 1-3 types and 1-4 destinations on 1-2 nodes, and 2-9 inputs each: encodings in all wire forms whose framing is broken at one place of any depth (cut, over-long or open varint, length, wire type), with the lengths around it put right, others with random damage, and intact ones; the reference decoder decides which are encodings of a message; distinct by the results"}
	scenarios["C06"] = &scenario{gen: genCut, run: runCut,
		rule: "a seed draws a type, a message, one of its equivalent wire forms and the places to cut it (all of them for short messages), or a log of concurrent writers with a crash and a torn tail; distinct by the results and the schedule"}
	scenarios["C07"] = &scenario{gen: genMerge, run: runMerge,
		rule: "a seed draws types, destinations with earlier contents, messages, and a network that drops, duplicates, delays, reorders, splits and coalesces them; distinct by the results and the schedule"}
	scenarios["C08"] = &scenario{gen: genVersions, run: runMerge,
		rule: "a seed draws up to three versions of a schema, senders and receivers of any of them, equivalent wire forms, unknown fields and network faults; distinct by the results and the schedule"}
	scenarios["C10"] = &scenario{gen: genOwn, run: runOwn,
		rule: "a seed draws 2-5 message variables and a history of decodes, encodes, buffer reuse, in-place changes and recycling; after every operation everything alive is compared with what it was; distinct by the results and the schedule"}
	scenarios["C11"] = &scenario{gen: genResidue, run: runResidue,
		rule: "a seed draws message variables and a history of decodes, many of them failing, and of the ways in which programs empty or reuse a destination; distinct by the results and the schedule"}
	scenarios["C14"] = &scenario{gen: genGC, run: runGC,
		rule: "a seed draws a history as for C10 and the steps at which a collection runs, the stack moves or pooled memory is lost; distinct by the results and the schedule"}
}

package main

import (
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/verifsim/ref"
)

// ---- C17 broken encodings are reported ----

// breakAt breaks the framing somewhere in an encoding of m, at any depth, and
// puts the lengths around that place right again, so that only the innermost
// reader can notice. m is nil inside of fields that the receiver does not know
// or does not look into.
func breakAt(r *ref.Rng, m *ref.Msg, f *ref.Field, b []byte) ([]byte, string) {
	raws, _ := ref.Scan(b)
	if len(raws) == 0 {
		return append(b[:len(b):len(b)], [][]byte{{0x80}, {0x0a}, {0x08}, {0x0a, 0x01}, {0x0d, 1, 2}, {0x09, 1, 2, 3, 4, 5, 6, 7}, {0x0f}, {0x0e, 0}}[r.Intn(8)]...), "tail"
	}
	// of the fields, prefer those that go deeper
	x := raws[r.Intn(len(raws))]
	for i := 0; i < 3; i++ {
		y := raws[r.Intn(len(raws))]
		if y.Wire == 2 && goesDeeper(m, f, y.Num) {
			x = y
		}
	}
	if x.Wire == 2 && goesDeeper(m, f, x.Num) && r.P(800) {
		val := b[x.Val:x.End]
		n := 0
		for val[n] >= 0x80 {
			n++
		}
		var sub *ref.Msg
		var sf *ref.Field
		if m != nil {
			sf = m.ByNum[x.Num]
			if sf.Card != ref.Map {
				sub, sf = sf.Msg, nil
			}
		} else {
			sub = f.Msg
		}
		inner, what := breakAt(r, sub, sf, val[n+1:])
		out := append([]byte(nil), b[:x.Val]...)
		out = ref.AppendVarint(out, uint64(len(inner)))
		out = append(out, inner...)
		return append(out, b[x.End:]...), "deep_" + what
	}
	out := append([]byte(nil), b[:x.Start]...)
	tag, val, rest := b[x.Start:x.Val], b[x.Val:x.End], b[x.End:]
	long := func(u uint64) []byte {
		switch r.Intn(3) {
		case 0: // eleven bytes
			return append(over(u, 10), 0)
		case 1: // more than 64 bits
			return append(over(u, 9), byte(2+r.Intn(126)))
		}
		return append(over(u, 9), 0xff, 0x01)
	}
	if r.P(250) && known(m, f, x.Num) {
		// another wire type, the framing stays intact
		y := append([]byte(nil), b[:x.Start]...)
		switch n := r.Intn(4); {
		case n == 0 && x.Wire != 0:
			y = ref.AppendVarint(y, uint64(x.Num)<<3)
			y = ref.AppendVarint(y, r.Bits())
		case n == 1 && x.Wire != 1:
			y = ref.AppendVarint(y, uint64(x.Num)<<3|1)
			y = append(y, r.Bytes(8)...)
		case n == 2 && x.Wire != 5:
			y = ref.AppendVarint(y, uint64(x.Num)<<3|5)
			y = append(y, r.Bytes(4)...)
		case x.Wire != 2:
			body := val
			if r.P(500) {
				body = r.Bytes(r.Intn(12))
			}
			y = lenField(y, x.Num, body)
		default:
			y = ref.AppendVarint(y, uint64(x.Num)<<3)
			y = append(y, byte(r.Intn(20)))
		}
		if r.P(300) {
			y = append(y, b[x.Start:x.End]...)
		}
		return append(y, rest...), "mismatch"
	}
	switch r.Intn(7) {
	case 0: // ends within this field
		n := x.Start + r.Intn(x.End-x.Start)
		return b[:n:n], "cut"
	case 1: // no such wire type
		u := uint64(x.Num)<<3 | uint64(6+r.Intn(2))
		out = ref.AppendVarint(out, u)
		return append(append(out, val...), rest...), "wire_type"
	case 2: // a tag that is too long
		u := uint64(x.Num)<<3 | uint64(x.Wire)
		out = append(out, long(u)...)
		return append(append(out, val...), rest...), "long_tag"
	case 3: // as the last field, cut short
		if len(val) == 0 {
			return append(append(out, rest...), tag...), "last_cut"
		}
		out = append(append(out, rest...), tag...)
		return append(out, val[:r.Intn(len(val))]...), "last_cut"
	case 4, 5:
		out = append(out, tag...)
		if x.Wire == 2 {
			n := 0
			for val[n] >= 0x80 {
				n++
			}
			body := val[n+1:]
			l := uint64(len(body))
			switch r.Intn(4) {
			case 0:
				out = append(out, long(l)...)
			case 1:
				out = ref.AppendVarint(out, l+uint64(len(rest))+1+uint64(r.Intn(3)))
			case 2:
				out = ref.AppendVarint(out, []uint64{1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<32 + l, 1<<31 - 1}[r.Intn(7)])
			default:
				out = ref.AppendVarint(out, l+1+uint64(r.Intn(2)))
			}
			return append(append(out, body...), rest...), "length"
		}
		if x.Wire == 0 {
			return append(append(out, long(0)...), rest...), "long_varint"
		}
		return append(append(out, val[:r.Intn(len(val))]...), rest...), "short_fixed"
	default:
		// a varint, tag or length that does not end
		out = append(append(out, val0(x, b)...), rest...)
		out = append(out, [][]byte{{0x80}, {0xff, 0xff}, {0x08, 0x80}, {0x0a, 0x80}, {0x12, 0xff, 0xff}, {0xfa, 0xff, 0xff, 0xff, 0xff}}[r.Intn(6)]...)
		return out, "open_end"
	}
}

func val0(x ref.Raw, b []byte) []byte { return b[x.Start:x.End] }

// over encodes the low bits of u in n continued bytes.
func over(u uint64, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return b
}

// goesDeeper tells whether the receiver looks into field num of a message m,
// or of an entry of the map field f.
func goesDeeper(m *ref.Msg, f *ref.Field, num uint32) bool {
	if m != nil {
		x := m.ByNum[num]
		return x != nil && (x.Msg != nil || x.Card == ref.Map)
	}
	return f != nil && num == 2 && f.Msg != nil
}

// known tells whether the receiver has field num.
func known(m *ref.Msg, f *ref.Field, num uint32) bool {
	if m != nil {
		return m.ByNum[num] != nil
	}
	return f != nil && (num == 1 || num == 2)
}

func genStrict(r *ref.Rng, p *Plan) {
	fleetTypes(r, p)
	p.Tasks = r.Pick(1, 1, 2)
	for i := r.Pick(1, 2, 4); i > 0; i-- {
		d := p.slot(r, r.Intn(len(p.Types)), r.P(400))
		owner := r.Intn(p.Tasks)
		at := int64(r.Intn(1000))
		for k := 2 + r.Intn(8); k > 0; k-- {
			at += int64(r.Intn(300))
			t := p.Slots[d].T
			b := p.encoding(r, t, nil)
			switch r.Intn(8) {
			case 0: // as it was sent
			case 1:
				var what string
				b, what = damage(r, b)
				p.count("dmg_"+what, 1)
			case 2:
				b = append(b, p.encoding(r, t, nil)...)
				fallthrough
			default:
				var what string
				b, what = breakAt(r, ref.Desc(p.typ(t)), nil, b)
				depth := 0
				for ; strings.HasPrefix(what, "deep_"); depth++ {
					what = what[5:]
				}
				p.count("brk_"+what, 1)
				if depth > 0 {
					p.count("brk_inside_"+strconv.Itoa(min(depth, 4)), 1)
				}
			}
			p.Ops = append(p.Ops, Op{K: "recv", Task: owner, D: d, B: b, A: placement(r), At: at})
			v := 0
			if r.P(400) {
				v = p.Slots[d].V
			}
			p.Ops = append(p.Ops, Op{K: "fresh", Task: owner, D: d, V: v, At: at})
		}
	}
	p.Sched = lightSched(r, p.Tasks)
}

func runStrict(p *Plan, st *Stats) *Violation {
	w := newWorld(p, st)
	w.strict = true
	v := w.run()
	st.add("decodes_of_broken_input", w.nFail)
	st.add("decodes_of_valid_input", w.nOK)
	st.add("decodes_of_other_wire_types", w.nMism)
	return v
}

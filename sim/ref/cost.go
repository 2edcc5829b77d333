package ref

import "reflect"

// Cost bounds the memory that a decoder needs for the objects that an input
// describes: what it stores, with room for growth by doubling, for scratch
// entries and for small initial maps.
func Cost(t reflect.Type, b []byte) uint64 {
	return cost(Desc(t), b)
}

func cost(m *Msg, b []byte) uint64 {
	raws, st := Scan(b)
	var n uint64
	seen := map[uint32]bool{}
	for _, r := range raws {
		f := m.ByNum[r.Num]
		if f == nil {
			continue
		}
		n += f.cost(m, b[r.Val:r.End], r.Wire, !seen[r.Num])
		seen[r.Num] = true
	}
	if st != OK {
		// some decoders go on a little where the reference stops
		rest := len(b)
		if len(raws) > 0 {
			rest -= raws[len(raws)-1].End
		}
		n += uint64(rest) * (128 + uint64(m.Type.Size()))
	}
	return n
}

func (f *Field) cost(m *Msg, b []byte, wire int, first bool) uint64 {
	n := uint64(32)
	if wire == 2 {
		if _, l, st := varint(b); st == OK {
			b = b[l:]
		}
		if f.Card != Map && f.Msg == nil {
			n += 2 * uint64(len(b))
		}
	}
	ft := m.Type.Field(f.Idx).Type
	switch f.Card {
	case Map:
		slot := uint64(ft.Key().Size() + ft.Elem().Size() + 2)
		if first {
			n += 512 + 32*slot // room from the start
		}
		n += 16*slot + 32 // its slot, doubled as the map grows, and a scratch entry
		if wire != 2 {
			return n
		}
		raws, st := Scan(b)
		for _, r := range raws {
			x := b[r.Val:r.End]
			n += 32 + 2*uint64(len(x))
			if r.Num == 2 && f.Msg != nil {
				if _, l, s := varint(x); r.Wire == 2 && s == OK {
					x = x[l:]
				}
				n += 2*uint64(f.Msg.Type.Size()) + cost(f.Msg, x)
			}
		}
		if st != OK {
			n += uint64(len(b)) * 128
		}
		return n
	case Repeated:
		n += 6 * uint64(ft.Elem().Size())
		if first {
			n += 16 * uint64(ft.Elem().Size())
		}
	}
	if f.Msg != nil {
		n += 2 * uint64(f.Msg.Type.Size())
		if wire == 2 {
			n += cost(f.Msg, b)
		}
	}
	return n
}

// Package ref is the reference model of the simulation: an independent, slow
// and simple implementation of the protobuf wire format over Go struct types,
// written from the protobuf encoding specification. It shares no code with
// the library under test and is itself checked against the standard Go
// implementation (dynamicpb) by the interoperability scenario.
package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/proto"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// Kind is a protobuf field kind.
type Kind uint8

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	String
	Bytes
	Message
	NumKinds
)

var kindNames = [...]string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes", "message"}

func (k Kind) String() string { return kindNames[k] }

// KindByName finds a kind.
func KindByName(s string) Kind {
	for i, n := range kindNames {
		if n == s {
			return Kind(i)
		}
	}
	panic("unknown kind " + s)
}

// Wire is the wire type of a kind.
func (k Kind) Wire() int {
	switch k {
	case Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64:
		return 0
	case Fixed64, Sfixed64, Double:
		return 1
	case Fixed32, Sfixed32, Float:
		return 5
	}
	return 2
}

// Card is how often a field may occur and how its presence is told.
type Card uint8

const (
	Implicit Card = iota // zero value = absent
	Option               // proto.Option
	Pointer              // pointer to a scalar
	Repeated
	Map
)

// Field describes one field of a message.
type Field struct {
	Num  uint32
	Kind Kind // of the map values, for maps
	Card Card
	Key  Kind
	Msg  *Msg // of the message, the elements, the map values
	Idx  int  // index of the Go struct field
	// NoPresence: an empty byte string is the same as none (proto3).
	NoPresence bool
}

// Msg describes a message type.
type Msg struct {
	Type   reflect.Type
	Fields []*Field // by number
	ByNum  map[uint32]*Field
}

// Simulated tasks are never switched inside of this package, so that a plain
// map does, and no lock hides a race between the tasks.
var descs = map[reflect.Type]*Msg{}

// Desc returns the descriptor of a Go struct type, read from its tags.
func Desc(t reflect.Type) *Msg {
	return desc(t)
}

// SetDesc gives a type a descriptor of other origin than its tags.
func SetDesc(m *Msg) {
	descs[m.Type] = m
}

func isOption(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && strings.HasPrefix(t.Name(), "Option[")
}

func kindOf(t reflect.Type, wire string) Kind {
	switch t.Kind() {
	case reflect.Bool:
		return Bool
	case reflect.Int32:
		switch wire {
		case "zigzag32":
			return Sint32
		case "fixed32":
			return Sfixed32
		}
		return Int32
	case reflect.Int64:
		switch wire {
		case "zigzag64":
			return Sint64
		case "fixed64":
			return Sfixed64
		}
		return Int64
	case reflect.Uint32:
		if wire == "fixed32" {
			return Fixed32
		}
		return Uint32
	case reflect.Uint64:
		if wire == "fixed64" {
			return Fixed64
		}
		return Uint64
	case reflect.Float32:
		return Float
	case reflect.Float64:
		return Double
	case reflect.String:
		return String
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return Bytes
		}
	case reflect.Ptr:
		if t.Elem().Kind() == reflect.Struct {
			return Message
		}
	}
	panic("ref: no kind for " + t.String())
}

func desc(t reflect.Type) *Msg {
	if m := descs[t]; m != nil {
		return m
	}
	m := &Msg{Type: t, ByNum: map[uint32]*Field{}}
	descs[t] = m
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag, ok := sf.Tag.Lookup("protobuf")
		if !ok || sf.PkgPath != "" {
			continue
		}
		parts := strings.Split(tag, ",")
		n, err := strconv.Atoi(parts[1])
		if err != nil {
			panic(err)
		}
		f := &Field{Num: uint32(n), Idx: i}
		ft := sf.Type
		switch {
		case isOption(ft):
			f.Card = Option
			f.Kind = kindOf(OptionElem(ft), parts[0])
		case ft.Kind() == reflect.Map:
			f.Card = Map
			f.Key = kindOf(ft.Key(), strings.Split(sf.Tag.Get("protobuf_key"), ",")[0])
			f.Kind = kindOf(ft.Elem(), strings.Split(sf.Tag.Get("protobuf_val"), ",")[0])
			if f.Kind == Message {
				f.Msg = desc(ft.Elem().Elem())
			}
		case ft.Kind() == reflect.Slice && ft.Elem().Kind() != reflect.Uint8:
			f.Card = Repeated
			f.Kind = kindOf(ft.Elem(), parts[0])
			if f.Kind == Message {
				f.Msg = desc(ft.Elem().Elem())
			}
		case ft.Kind() == reflect.Ptr && ft.Elem().Kind() != reflect.Struct:
			f.Card = Pointer
			f.Kind = kindOf(ft.Elem(), parts[0])
		default:
			f.Kind = kindOf(ft, parts[0])
			if f.Kind == Message {
				f.Msg = desc(ft.Elem())
			}
		}
		m.Fields = append(m.Fields, f)
		m.ByNum[f.Num] = f
	}
	sort.Slice(m.Fields, func(i, j int) bool { return m.Fields[i].Num < m.Fields[j].Num })
	return m
}

// OptionElem is the value type of an Option type.
func OptionElem(t reflect.Type) reflect.Type {
	switch reflect.New(t).Interface().(type) {
	case *proto.Option[bool]:
		return reflect.TypeOf(false)
	case *proto.Option[int32]:
		return reflect.TypeOf(int32(0))
	case *proto.Option[int64]:
		return reflect.TypeOf(int64(0))
	case *proto.Option[uint32]:
		return reflect.TypeOf(uint32(0))
	case *proto.Option[uint64]:
		return reflect.TypeOf(uint64(0))
	case *proto.Option[float32]:
		return reflect.TypeOf(float32(0))
	case *proto.Option[float64]:
		return reflect.TypeOf(float64(0))
	case *proto.Option[string]:
		return reflect.TypeOf("")
	}
	panic("ref: unknown option type " + t.String())
}

// Scalar is the value of any scalar: its wire bits, or its bytes.
type Scalar struct {
	U uint64
	B []byte
}

func (s Scalar) zero(k Kind) bool {
	if k == String || k == Bytes {
		return len(s.B) == 0
	}
	return s.U == 0
}

// OptGet reads an Option.
func OptGet(v reflect.Value) (bool, reflect.Value) {
	// the accessors are code under test, but this is not a call of the program
	simrt.Pause()
	defer simrt.Resume()
	switch o := v.Addr().Interface().(type) {
	case *proto.Option[bool]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[int32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[int64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[uint32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[uint64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[float32]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[float64]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	case *proto.Option[string]:
		return o.IsSome(), reflect.ValueOf(o.Unwrap())
	}
	panic("ref: unknown option type")
}

// OptSet writes an Option.
func OptSet(v reflect.Value, k Kind, s Scalar) {
	simrt.Pause()
	defer simrt.Resume()
	switch o := v.Addr().Interface().(type) {
	case *proto.Option[bool]:
		*o = proto.Some(s.U != 0)
	case *proto.Option[int32]:
		*o = proto.Some(int32(int64OfBits(k, s.U)))
	case *proto.Option[int64]:
		*o = proto.Some(int64OfBits(k, s.U))
	case *proto.Option[uint32]:
		*o = proto.Some(uint32(s.U))
	case *proto.Option[uint64]:
		*o = proto.Some(s.U)
	case *proto.Option[float32]:
		*o = proto.Some(math.Float32frombits(uint32(s.U)))
	case *proto.Option[float64]:
		*o = proto.Some(math.Float64frombits(s.U))
	case *proto.Option[string]:
		*o = proto.Some(string(s.B))
	default:
		panic("ref: unknown option type")
	}
}

// bits of an integer as they travel: zigzag or two's complement.
func bitsOfInt64(k Kind, v int64) uint64 {
	switch k {
	case Sint32:
		return uint64(uint32(v<<1) ^ uint32(int32(v)>>31))
	case Sint64:
		return uint64(v<<1) ^ uint64(v>>63)
	case Sfixed32:
		return uint64(uint32(int32(v)))
	}
	return uint64(v)
}

func int64OfBits(k Kind, u uint64) int64 {
	switch k {
	case Sint32:
		x := uint32(u)
		return int64(int32(x>>1) ^ -int32(x&1))
	case Sint64:
		return int64(u>>1) ^ -int64(u&1)
	case Sfixed32, Int32:
		return int64(int32(uint32(u)))
	}
	return int64(u)
}

// Get reads a scalar from a Go value.
func Get(k Kind, v reflect.Value) Scalar {
	switch k {
	case Bool:
		if v.Bool() {
			return Scalar{U: 1}
		}
		return Scalar{}
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		return Scalar{U: bitsOfInt64(k, v.Int())}
	case Uint32, Uint64, Fixed32, Fixed64:
		return Scalar{U: v.Uint()}
	case Float:
		// through the memory: a conversion may quieten a signalling NaN
		if v.CanAddr() {
			return Scalar{U: uint64(math.Float32bits(*(v.Addr().Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32))))}
		}
		return Scalar{U: uint64(math.Float32bits(v.Convert(reflect.TypeOf(float32(0))).Interface().(float32)))}
	case Double:
		return Scalar{U: math.Float64bits(v.Float())}
	case String:
		return Scalar{B: []byte(v.String())}
	case Bytes:
		return Scalar{B: v.Bytes()}
	}
	panic("ref: get")
}

// Set writes a scalar to a Go value.
func Set(k Kind, v reflect.Value, s Scalar) {
	switch k {
	case Bool:
		v.SetBool(s.U != 0)
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		v.SetInt(int64OfBits(k, s.U))
	case Uint32, Fixed32:
		v.SetUint(uint64(uint32(s.U)))
	case Uint64, Fixed64:
		v.SetUint(s.U)
	case Float:
		*(v.Addr().Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32)) = math.Float32frombits(uint32(s.U))
	case Double:
		v.SetFloat(math.Float64frombits(s.U))
	case String:
		v.SetString(string(s.B))
	case Bytes:
		b := make([]byte, len(s.B))
		copy(b, s.B)
		v.SetBytes(b)
	default:
		panic("ref: set")
	}
}

// ---- encoding ----

// Noise selects equivalent wire forms. The zero value gives the canonical
// form: fields by number, map entries by key, minimal varints.
type Noise struct {
	R         *Rng
	Shuffle   int // per mille, all of them
	PadVarint int
	Split     int
	Defaults  int
	Overwrite int
	Unknown   int
	EntrySwap int
	EntryOmit int
	Neg32     int // negative int32 as five-byte varints
	Count     [9]int
}

func (n *Noise) p(rate int, what int) bool {
	if n == nil || rate == 0 {
		return false
	}
	if n.R.Intn(1000) < rate {
		n.Count[what]++
		return true
	}
	return false
}

// AppendVarint appends a minimal varint.
func AppendVarint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func (n *Noise) varint(b []byte, u uint64) []byte {
	if n != nil && n.p(n.PadVarint, 1) {
		var t []byte
		t = AppendVarint(t, u)
		want := len(t) + 1 + n.R.Intn(3)
		if n.R.Intn(4) == 0 {
			want = 10
		}
		if want > 10 {
			want = 10
		}
		for len(t) < want {
			t[len(t)-1] |= 0x80
			t = append(t, 0)
		}
		return append(b, t...)
	}
	return AppendVarint(b, u)
}

func (n *Noise) tag(b []byte, num uint32, wire int) []byte {
	return n.varint(b, uint64(num)<<3|uint64(wire))
}

func (n *Noise) scalar(b []byte, k Kind, s Scalar) []byte {
	switch k.Wire() {
	case 0:
		u := s.U
		if k == Int32 && int64(u) < 0 && n != nil && n.p(n.Neg32, 8) {
			u = uint64(uint32(u))
		}
		return n.varint(b, u)
	case 1:
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], s.U)
		return append(b, t[:]...)
	case 5:
		var t [4]byte
		binary.LittleEndian.PutUint32(t[:], uint32(s.U))
		return append(b, t[:]...)
	}
	b = n.varint(b, uint64(len(s.B)))
	return append(b, s.B...)
}

type rec struct {
	num uint32
	b   []byte
}

// NilElem is what a nil element of a repeated message field turns into: no
// decoder may produce one, and no valid encoding contains these bytes.
var NilElem = []byte{0x07, 0x07, 0x07}

// Encode encodes the struct value v (addressable).
func Encode(v reflect.Value, n *Noise) []byte {
	m := Desc(v.Type())
	return join(m, records(m, v, n), n)
}

func join(m *Msg, rs []rec, n *Noise) []byte {
	if n != nil && len(rs) > 1 && n.p(n.Shuffle, 0) {
		// a random order that keeps the records of each field in order
		for k := 0; k < 2*len(rs); k++ {
			i := n.R.Intn(len(rs) - 1)
			if rs[i].num != rs[i+1].num {
				rs[i], rs[i+1] = rs[i+1], rs[i]
			}
		}
		if n.R.Intn(2) == 0 { // full permutation by field
			order := map[uint32]int{}
			for _, r := range rs {
				if _, ok := order[r.num]; !ok {
					order[r.num] = n.R.Intn(1 << 30)
				}
			}
			sort.SliceStable(rs, func(i, j int) bool { return order[rs[i].num] < order[rs[j].num] })
		}
	}
	var b []byte
	for _, r := range rs {
		if n != nil && n.p(n.Unknown, 5) {
			b = append(b, n.unknown(m)...)
		}
		b = append(b, r.b...)
	}
	if n != nil && n.p(n.Unknown, 5) {
		b = append(b, n.unknown(m)...)
	}
	return b
}

func (n *Noise) unknown(m *Msg) []byte {
	for {
		var num uint32
		switch n.R.Intn(5) {
		case 0:
			num = uint32(1<<29 - 1 - n.R.Intn(10))
		case 1:
			num = uint32(1 + n.R.Intn(1<<29-1))
		case 2:
			num = uint32(3 + n.R.Intn(3000))
		case 3:
			num = uint32(n.R.Pick(15, 16, 2047, 2048, 1<<18, 1<<25, 1<<25-1, 1<<28))
		default:
			num = uint32(3 + n.R.Intn(60))
		}
		if m == nil || m.ByNum[num] == nil {
			return RawField(n.R, n, num)
		}
	}
}

// RawField builds a random field of the given number.
func RawField(r *Rng, n *Noise, num uint32) []byte {
	var b []byte
	switch r.Intn(5) {
	case 0:
		b = n.tag(b, num, 0)
		b = n.varint(b, r.Bits())
	case 1:
		b = n.tag(b, num, 1)
		for i := 0; i < 8; i++ {
			b = append(b, byte(r.U64()))
		}
	case 2:
		b = n.tag(b, num, 5)
		for i := 0; i < 4; i++ {
			b = append(b, byte(r.U64()))
		}
	case 3:
		b = n.tag(b, num, 2)
		s := r.Bytes(r.Len())
		b = n.varint(b, uint64(len(s)))
		b = append(b, s...)
	default:
		b = n.tag(b, num, 2)
		var s []byte
		for i := r.Intn(3); i >= 0; i-- {
			s = append(s, RawField(r, n, uint32(1+r.Intn(40)))...)
			if len(s) > 500 {
				break
			}
		}
		b = n.varint(b, uint64(len(s)))
		b = append(b, s...)
	}
	return b
}

func (n *Noise) other(k Kind, s Scalar) Scalar {
	return RandScalar(n.R, k)
}

func (n *Noise) scalarRec(num uint32, k Kind, s Scalar) rec {
	var b []byte
	b = n.tag(b, num, k.Wire())
	return rec{num, n.scalar(b, k, s)}
}

func (n *Noise) msgRecs(m *Msg, num uint32, rs []rec) []rec {
	one := func(part []rec) rec {
		var b []byte
		b = n.tag(b, num, 2)
		c := join(m, part, n)
		b = n.varint(b, uint64(len(c)))
		return rec{num, append(b, c...)}
	}
	if n != nil && n.p(n.Split, 2) {
		var out []rec
		for len(rs) > 0 || len(out) < 2 {
			k := 0
			if len(rs) > 0 {
				k = 1 + n.R.Intn(len(rs))
			}
			out = append(out, one(rs[:k:k]))
			rs = rs[k:]
			if len(out) > 4 {
				break
			}
		}
		if len(rs) > 0 {
			out = append(out, one(rs))
		}
		return out
	}
	return []rec{one(rs)}
}

func records(m *Msg, v reflect.Value, n *Noise) []rec {
	var out []rec
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		switch f.Card {
		case Implicit:
			if f.Kind == Message {
				if !fv.IsNil() {
					out = append(out, n.msgRecs(f.Msg, f.Num, records(f.Msg, fv.Elem(), n))...)
				}
				continue
			}
			s := Get(f.Kind, fv)
			present := !s.zero(f.Kind)
			if f.Kind == Bytes && !f.NoPresence {
				present = !fv.IsNil()
			} else if !present && n != nil && n.p(n.Defaults, 3) {
				present = true
			}
			if present {
				if n != nil && n.p(n.Overwrite, 4) {
					out = append(out, n.scalarRec(f.Num, f.Kind, n.other(f.Kind, s)))
				}
				out = append(out, n.scalarRec(f.Num, f.Kind, s))
			}
		case Option, Pointer:
			var s Scalar
			if f.Card == Option {
				ok, ov := OptGet(fv)
				if !ok {
					continue
				}
				s = Get(f.Kind, ov)
			} else {
				if fv.IsNil() {
					continue
				}
				s = Get(f.Kind, fv.Elem())
			}
			if n != nil && n.p(n.Overwrite, 4) {
				out = append(out, n.scalarRec(f.Num, f.Kind, n.other(f.Kind, s)))
			}
			out = append(out, n.scalarRec(f.Num, f.Kind, s))
		case Repeated:
			for i := 0; i < fv.Len(); i++ {
				e := fv.Index(i)
				if f.Kind == Message {
					if e.IsNil() {
						out = append(out, rec{f.Num, NilElem})
						continue
					}
					var b []byte
					b = n.tag(b, f.Num, 2)
					c := join(f.Msg, records(f.Msg, e.Elem(), n), n)
					b = n.varint(b, uint64(len(c)))
					out = append(out, rec{f.Num, append(b, c...)})
					continue
				}
				out = append(out, n.scalarRec(f.Num, f.Kind, Get(f.Kind, e)))
			}
		case Map:
			var ents [][]byte
			it := fv.MapRange()
			for it.Next() {
				ents = append(ents, sortKey(f.Key, Get(f.Key, it.Key())))
			}
			sort.Slice(ents, func(i, j int) bool { return bytes.Compare(ents[i], ents[j]) < 0 })
			for _, e := range ents {
				ks := scalarOfSortKey(f.Key, e)
				kv := reflect.New(fv.Type().Key()).Elem()
				Set(f.Key, kv, ks)
				vv := reflect.New(fv.Type().Elem()).Elem()
				vv.Set(fv.MapIndex(kv))
				if n != nil && n.p(n.Overwrite, 4) {
					ov := reflect.New(fv.Type().Elem()).Elem()
					if f.Kind != Message {
						Set(f.Kind, ov, n.other(f.Kind, Scalar{}))
					} else {
						ov.Set(reflect.New(f.Msg.Type))
					}
					out = append(out, entry(f, ks, ov, n))
				}
				out = append(out, entry(f, ks, vv, n))
			}
		}
	}
	return out
}

func sortKey(k Kind, s Scalar) []byte {
	if k == String {
		return s.B
	}
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], s.U)
	return t[:]
}

func scalarOfSortKey(k Kind, b []byte) Scalar {
	if k == String {
		return Scalar{B: b}
	}
	return Scalar{U: binary.BigEndian.Uint64(b)}
}

func entry(f *Field, ks Scalar, vv reflect.Value, n *Noise) rec {
	var kb []byte
	var vb []rec
	if !(ks.zero(f.Key) && n != nil && n.p(n.EntryOmit, 7)) {
		kb = n.scalarRec(1, f.Key, ks).b
	}
	if f.Kind == Message {
		var rs []rec
		if !vv.IsNil() {
			rs = records(f.Msg, vv.Elem(), n)
		}
		if !(len(rs) == 0 && n != nil && n.p(n.EntryOmit, 7)) {
			vb = n.msgRecs(f.Msg, 2, rs)
		}
	} else {
		s := Get(f.Kind, vv)
		if !(s.zero(f.Kind) && n != nil && n.p(n.EntryOmit, 7)) {
			vb = []rec{n.scalarRec(2, f.Kind, s)}
		}
	}
	var c []byte
	if n != nil && n.p(n.Unknown, 5) {
		c = append(c, n.unknown(nil)...)
	}
	if n != nil && n.p(n.EntrySwap, 6) {
		for _, r := range vb {
			c = append(c, r.b...)
		}
		c = append(c, kb...)
	} else {
		c = append(c, kb...)
		for _, r := range vb {
			c = append(c, r.b...)
		}
	}
	if n != nil && n.p(n.Unknown, 5) {
		c = append(c, n.unknown(nil)...)
	}
	var b []byte
	b = n.tag(b, f.Num, 2)
	b = n.varint(b, uint64(len(c)))
	return rec{f.Num, append(b, c...)}
}

// ---- decoding ----

// Status classifies an encoding.
type Status int

const (
	OK        Status = iota
	EOF              // ends in the middle of something
	Malformed        // cannot be the encoding of anything
	Unspec           // valid or not depending on features outside of the model (groups, packed fields, wrong wire types)
)

func (s Status) String() string {
	return [...]string{"ok", "eof", "malformed", "unspecified"}[s]
}

func varint(b []byte) (uint64, int, Status) {
	var x uint64
	for i := 0; i < len(b); i++ {
		if i == 9 && b[i] > 1 {
			if b[i] < 0x80 {
				return 0, 0, Malformed
			}
			// eleven bytes or more, or cut off
			return 0, 0, Malformed
		}
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return x, i + 1, OK
		}
	}
	return 0, 0, EOF
}

// skip returns the length of the value of a field.
func skip(b []byte, wire int) (int, Status) {
	switch wire {
	case 0:
		_, n, st := varint(b)
		return n, st
	case 1:
		if len(b) < 8 {
			return 0, EOF
		}
		return 8, OK
	case 5:
		if len(b) < 4 {
			return 0, EOF
		}
		return 4, OK
	case 2:
		l, n, st := varint(b)
		if st != OK {
			return 0, st
		}
		if l > uint64(len(b)-n) {
			return 0, EOF
		}
		return n + int(l), OK
	case 3, 4:
		return 0, Unspec
	}
	return 0, Malformed
}

// Raw is one field of an encoding.
type Raw struct {
	Num   uint32
	Wire  int
	Start int // of the tag
	Val   int // of the value
	End   int
}

// Scan splits an encoding into its top-level fields, as far as it goes.
func Scan(b []byte) ([]Raw, Status) {
	var out []Raw
	i := 0
	for i < len(b) {
		t, n, st := varint(b[i:])
		if st != OK {
			return out, st
		}
		num := t >> 3
		if num == 0 || num > 1<<29-1 {
			return out, Unspec
		}
		l, st := skip(b[i+n:], int(t&7))
		if st != OK {
			return out, st
		}
		out = append(out, Raw{uint32(num), int(t & 7), i, i + n, i + n + l})
		i += n + l
	}
	return out, OK
}

func scalarAt(k Kind, b []byte) (Scalar, Status) {
	switch k.Wire() {
	case 0:
		u, _, st := varint(b)
		if st != OK {
			return Scalar{}, st
		}
		if k == Sint32 && u>>32 != 0 {
			return Scalar{}, Unspec
		}
		if k == Bool && u != 0 {
			u = 1
		}
		return Scalar{U: u}, OK
	case 1:
		return Scalar{U: binary.LittleEndian.Uint64(b)}, OK
	case 5:
		return Scalar{U: uint64(binary.LittleEndian.Uint32(b))}, OK
	}
	_, n, st := varint(b)
	return Scalar{B: b[n:]}, st
}

// Merge decodes b into the struct value v by the protobuf merge rules.
func Merge(b []byte, v reflect.Value) Status {
	return new(merger).merge(b, v, Desc(v.Type()))
}

// MergeSkipping is Merge, but a field whose wire type is not the one of its
// declaration is passed over like a field that is not known. It reports
// whether there were such fields. (A repeated scalar in the packed form stays
// unspecified.)
func MergeSkipping(b []byte, v reflect.Value) (Status, bool) {
	g := merger{skipping: true}
	st := g.merge(b, v, Desc(v.Type()))
	return st, g.mismatched
}

type merger struct {
	skipping, mismatched bool
}

// mismatch is met with a field that has another wire type than declared.
func (g *merger) mismatch(packed bool) bool {
	g.mismatched = true
	return g.skipping && !packed
}

func (g *merger) merge(b []byte, v reflect.Value, m *Msg) Status {
	raws, st := Scan(b)
	for _, r := range raws {
		f := m.ByNum[r.Num]
		if f == nil {
			continue
		}
		fv := v.Field(f.Idx)
		wire := f.Kind.Wire()
		if f.Card == Map {
			wire = 2
		}
		if r.Wire != wire {
			if g.mismatch(f.Card == Repeated && wire != 2 && r.Wire == 2) {
				continue
			}
			return Unspec
		}
		val := b[r.Val:r.End]
		switch {
		case f.Card == Map:
			_, n, st := varint(val)
			if st != OK {
				return st
			}
			if st := g.mergeEntry(val[n:], fv, f); st != OK {
				return st
			}
		case f.Kind == Message:
			_, n, st := varint(val)
			if st != OK {
				return st
			}
			var dst reflect.Value
			if f.Card == Repeated {
				dst = reflect.New(f.Msg.Type)
				if st := g.merge(val[n:], dst.Elem(), f.Msg); st != OK {
					return st
				}
				fv.Set(reflect.Append(fv, dst))
				break
			}
			if fv.IsNil() {
				fv.Set(reflect.New(f.Msg.Type))
			}
			if st := g.merge(val[n:], fv.Elem(), f.Msg); st != OK {
				return st
			}
		default:
			s, st := scalarAt(f.Kind, val)
			if st != OK {
				return st
			}
			switch f.Card {
			case Implicit:
				Set(f.Kind, fv, s)
			case Option:
				OptSet(fv, f.Kind, s)
			case Pointer:
				p := reflect.New(fv.Type().Elem())
				Set(f.Kind, p.Elem(), s)
				fv.Set(p)
			case Repeated:
				e := reflect.New(fv.Type().Elem()).Elem()
				Set(f.Kind, e, s)
				fv.Set(reflect.Append(fv, e))
			}
		}
	}
	return st
}

func (g *merger) mergeEntry(b []byte, fv reflect.Value, f *Field) Status {
	raws, st := Scan(b)
	kv := reflect.New(fv.Type().Key()).Elem()
	vv := reflect.New(fv.Type().Elem()).Elem()
	if f.Kind == Message {
		vv.Set(reflect.New(f.Msg.Type))
	}
	for _, r := range raws {
		val := b[r.Val:r.End]
		switch r.Num {
		case 1:
			if r.Wire != f.Key.Wire() {
				if g.mismatch(false) {
					continue
				}
				return Unspec
			}
			s, st := scalarAt(f.Key, val)
			if st != OK {
				return st
			}
			Set(f.Key, kv, s)
		case 2:
			if r.Wire != f.Kind.Wire() {
				if g.mismatch(false) {
					continue
				}
				return Unspec
			}
			if f.Kind == Message {
				_, n, st := varint(val)
				if st != OK {
					return st
				}
				if st := g.merge(val[n:], vv.Elem(), f.Msg); st != OK {
					return st
				}
				break
			}
			s, st := scalarAt(f.Kind, val)
			if st != OK {
				return st
			}
			Set(f.Kind, vv, s)
		}
	}
	if st != OK {
		return st
	}
	if fv.IsNil() {
		fv.Set(reflect.MakeMap(fv.Type()))
	}
	fv.SetMapIndex(kv, vv)
	return OK
}

// Decode decodes b into a new message.
func Decode(t reflect.Type, b []byte) (reflect.Value, Status) {
	p := reflect.New(t)
	st := Merge(b, p.Elem())
	return p, st
}

// Canon is the canonical form of a message: two messages are the same value
// if and only if their canonical forms are equal (a nil and an empty slice or
// map are the same, as are a nil and an empty message as a map value).
func Canon(p reflect.Value) []byte { return Encode(p.Elem(), nil) }

// Describe renders an encoding of t for people.
func Describe(t reflect.Type, b []byte) string {
	v, st := Decode(t, b)
	return fmt.Sprintf("%v %s", st, Dump(v.Elem()))
}

// Dump renders a message.
func Dump(v reflect.Value) string {
	var sb strings.Builder
	dump(&sb, v, Desc(v.Type()), 0)
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, m *Msg, depth int) {
	sb.WriteString("{")
	for _, f := range m.Fields {
		if sb.Len() > 2000 || depth > 8 {
			sb.WriteString(" ...")
			break
		}
		fv := v.Field(f.Idx)
		one := func(e reflect.Value) {
			if f.Kind == Message {
				if e.IsNil() {
					sb.WriteString("nil")
				} else {
					dump(sb, e.Elem(), f.Msg, depth+1)
				}
				return
			}
			if f.Kind == String || f.Kind == Bytes {
				s := Get(f.Kind, e).B
				if len(s) > 24 {
					fmt.Fprintf(sb, "%q...(%d)", s[:24], len(s))
				} else {
					fmt.Fprintf(sb, "%q", s)
				}
				return
			}
			fmt.Fprintf(sb, "%v", e.Interface())
		}
		switch f.Card {
		case Implicit:
			if fv.IsZero() {
				continue
			}
			fmt.Fprintf(sb, " %d:", f.Num)
			one(fv)
		case Option:
			ok, ov := OptGet(fv)
			if !ok {
				continue
			}
			fmt.Fprintf(sb, " %d:some ", f.Num)
			one(ov)
		case Pointer:
			if fv.IsNil() {
				continue
			}
			fmt.Fprintf(sb, " %d:&", f.Num)
			one(fv.Elem())
		case Repeated:
			if fv.Len() == 0 {
				continue
			}
			fmt.Fprintf(sb, " %d:[", f.Num)
			for i := 0; i < fv.Len() && i < 8; i++ {
				if i > 0 {
					sb.WriteString(" ")
				}
				one(fv.Index(i))
			}
			fmt.Fprintf(sb, "](%d)", fv.Len())
		case Map:
			if fv.Len() == 0 {
				continue
			}
			fmt.Fprintf(sb, " %d:map(%d)", f.Num, fv.Len())
			if fv.Len() <= 4 {
				c := Encode(v, nil)
				raws, _ := Scan(c)
				for _, r := range raws {
					if r.Num == f.Num {
						fmt.Fprintf(sb, "<%x>", trunc(c[r.Val:r.End], 24))
					}
				}
			}
		}
	}
	sb.WriteString(" }")
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// GoScalar is the Go type of a scalar kind.
func GoScalar(k Kind) reflect.Type { return goType(k, nil) }

// OptionType is the Option type of a scalar kind.
func OptionType(k Kind) reflect.Type { return optType(k) }

// Sort puts the fields of a descriptor in order.
func (m *Msg) Sort() {
	sort.Slice(m.Fields, func(i, j int) bool { return m.Fields[i].Num < m.Fields[j].Num })
}

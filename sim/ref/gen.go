package ref

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

// Rng is the generator every random choice comes from (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// U64 returns 64 random bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// Intn returns a number below n.
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

// P is true with a probability of k/1000.
func (r *Rng) P(k int) bool { return r.Intn(1000) < k }

// Pick returns one of its arguments.
func (r *Rng) Pick(v ...int) int { return v[r.Intn(len(v))] }

// Bits returns a number of random width, often at an edge.
func (r *Rng) Bits() uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(3))
	case 1: // around powers of two and of 128
		w := uint(r.Intn(65))
		var x uint64
		if w < 64 {
			x = 1 << w
		}
		return x + uint64(r.Intn(3)) - 1
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		return uint64(int64(math.MinInt32) + int64(r.Intn(3)))
	}
	w := uint(r.Intn(65))
	if w == 0 {
		return 0
	}
	return r.U64() >> (64 - w)
}

// Len returns a length, mostly small, around interesting borders sometimes.
func (r *Rng) Len() int {
	switch r.Intn(24) {
	case 0, 1, 2:
		return 0
	case 3:
		return 100 + r.Intn(60) // around 127/128
	case 4:
		return 126 + r.Intn(4)
	case 5:
		if r.Intn(12) == 0 {
			switch r.Intn(24) {
			case 0:
				return 1<<uint(16+r.Intn(3)) - 3 + r.Intn(6)
			case 1:
				if r.Intn(8) == 0 {
					return 1<<uint(19+r.Intn(3)) - 8 + r.Intn(12)
				}
			case 2, 3, 4, 5, 6, 7, 8, 9, 10, 11:
				return 1<<uint(9+r.Intn(7)) - 5 + r.Intn(10)
			}
			return 16380 + r.Intn(8)
		}
		return 200 + r.Intn(100)
	}
	return r.Intn(12)
}

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

var runes = []string{"a", "b", "c", "x", "0", " ", "\x00", "\n", "\x7f", "é", "ß", "世", "界", "😀", "\u2028"}

// Text returns valid UTF-8 of about n bytes.
func (r *Rng) Text(n int) []byte {
	var b []byte
	for len(b) < n {
		b = append(b, runes[r.Intn(len(runes))]...)
	}
	return b
}

// RandScalar returns a random scalar.
func RandScalar(r *Rng, k Kind) Scalar {
	switch k {
	case Bool:
		return Scalar{U: uint64(r.Intn(2))}
	case Int32:
		return Scalar{U: uint64(int64(int32(r.Bits())))}
	case Uint32, Sint32, Fixed32, Sfixed32:
		return Scalar{U: uint64(uint32(r.Bits()))}
	case Float:
		switch r.Intn(8) {
		case 0:
			return Scalar{U: 0}
		case 1:
			return Scalar{U: 1 << 31} // -0
		case 2:
			return Scalar{U: uint64(math.Float32bits(float32(math.Inf(1 - 2*r.Intn(2)))))}
		case 3:
			return Scalar{U: 0x7fc00000}
		case 4:
			return Scalar{U: uint64(math.Float32bits(float32(r.Intn(1000)) / 8))}
		}
		u := uint64(uint32(r.U64()))
		if u&0x7f800000 == 0x7f800000 {
			u |= 0x00400000 // no signalling NaN: hardware may quieten it
		}
		return Scalar{U: u}
	case Double:
		switch r.Intn(8) {
		case 0:
			return Scalar{U: 0}
		case 1:
			return Scalar{U: 1 << 63}
		case 2:
			return Scalar{U: math.Float64bits(math.Inf(1 - 2*r.Intn(2)))}
		case 3:
			return Scalar{U: 0x7ff8000000000000}
		case 4:
			return Scalar{U: math.Float64bits(float64(r.Intn(1000)) / 8)}
		}
		u := r.U64()
		if u&0x7ff0000000000000 == 0x7ff0000000000000 {
			u |= 0x0008000000000000
		}
		return Scalar{U: u}
	case String:
		return Scalar{B: r.Text(r.Len())}
	case Bytes:
		return Scalar{B: r.Bytes(r.Len())}
	}
	return Scalar{U: r.Bits()}
}

// ValOpts shapes random messages.
type ValOpts struct {
	Fill   int // per mille: a field is set
	Big    int // per mille: a repeated or map field is large
	Depth  int // nesting left
	Budget int // total number of fields left
	NoNaN  bool
	Huge   int // how many fields may be very large
	Long   int // how many texts may be long
}

// LongSizes are the sizes of long texts in the messages of this run, if any.
var LongSizes []int

// LongAll: every message of this run has a long text, if its type has texts.
var LongAll bool

// Longs decides whether a message has long texts.
func (o *ValOpts) Longs(r *Rng) *ValOpts {
	if len(LongSizes) > 0 && (LongAll || r.P(500)) {
		o.Long = 1 + r.Intn(3)
	}
	if LongAll {
		o.Long, o.Fill = 1, 1000
	}
	return o
}

// scalar draws a value; a text may be long.
func (o *ValOpts) scalar(r *Rng, k Kind) Scalar {
	if o.Long > 0 && (k == String || k == Bytes) && (LongAll || r.P(700)) {
		o.Long--
		n := LongSizes[r.Intn(len(LongSizes))] - 8 + r.Intn(16)
		c := byte('a' + r.Intn(26))
		return Scalar{B: bytes.Repeat([]byte{c, '1', '2', '3', '4', '5', '6'}, n/7+1)[:n]}
	}
	return RandScalar(r, k)
}

// HugeRate is the number of messages of which one has very large fields; none
// if it is 0. HugeSize, if not 0, is a limit to the size of those.
var HugeRate, HugeSize int

var hugeCounts = []int{2047, 2049, 2600, 3000, 4097, 5200, 6000, 8193, 10300, 16390, 20500, 33000, 66000}

// huge returns the size of a very large field, or 0.
func (o *ValOpts) huge(r *Rng, k Kind, rep bool) int {
	if o.Huge == 0 || k == Message && !rep || !rep && k != String && k != Bytes || r.P(500) {
		return 0
	}
	o.Huge--
	n := r.Pick(1<<16, 1<<18, 1<<20, 1<<21, 1<<21, 2200000) - 8 + r.Intn(16)
	if rep {
		n = hugeCounts[r.Intn(len(hugeCounts))]
	}
	if HugeSize > 0 && n > HugeSize {
		n = HugeSize - r.Intn(HugeSize/2)
	}
	if k == Message && n > 9000 {
		n = 9000 - r.Intn(4500)
	}
	return n
}

// part draws the options of one element of a very large list.
func (o *ValOpts) part(r *Rng) *ValOpts { return &ValOpts{Fill: 300, Budget: r.Intn(4)} }

// RandOpts draws message shapes.
func RandOpts(r *Rng) *ValOpts {
	o := &ValOpts{Fill: r.Pick(150, 400, 700, 900, 1000), Big: r.Pick(0, 20, 60, 200), Depth: r.Pick(1, 2, 3, 4, 6), Budget: r.Pick(6, 20, 60, 150)}
	if r.P(25) {
		o.Depth = 120
		o.Budget = 300
		o.Big = 0
		if r.P(100) {
			o.Depth, o.Budget = 700, 1500
		}
	}
	if HugeRate > 0 && r.Intn(HugeRate) == 0 {
		o.Huge, o.Big = 1, 0
	}
	if o.Longs(r); o.Depth > 20 && (o.Long > 0 || o.Huge > 0) {
		o.Depth = 20 // the model copies a message once for every level around it
	}
	return o
}

func (o *ValOpts) count(r *Rng) int {
	if r.P(o.Big) {
		if r.P(60) {
			return r.Pick(200, 255, 256, 257, 300, 513, 1025)
		}
		return r.Pick(9, 10, 11, 19, 20, 21, 22, 40, 41, 64, 130)
	}
	return r.Intn(4)
}

// RandMsg fills the struct value v.
func RandMsg(r *Rng, v reflect.Value, o *ValOpts) { randMsg(r, v, Desc(v.Type()), o, o.Depth) }

func randMsg(r *Rng, v reflect.Value, m *Msg, o *ValOpts, depth int) {
	for _, f := range m.Fields {
		if o.Budget <= 0 || !r.P(o.Fill) {
			continue
		}
		o.Budget--
		fv := v.Field(f.Idx)
		if f.Kind == Message && depth <= 0 {
			continue
		}
		switch f.Card {
		case Implicit:
			if f.Kind == Message {
				e := reflect.New(f.Msg.Type)
				randMsg(r, e.Elem(), f.Msg, o, depth-1)
				fv.Set(e)
				continue
			}
			s := o.scalar(r, f.Kind)
			if n := o.huge(r, f.Kind, false); n > 0 {
				s = Scalar{B: bytes.Repeat([]byte("0123456789abcde"), n/15+1)[:n]}
			}
			Set(f.Kind, fv, s)
		case Option:
			s := o.scalar(r, f.Kind)
			if n := o.huge(r, f.Kind, false); n > 0 {
				s = Scalar{B: bytes.Repeat([]byte("0123456789abcde"), n/15+1)[:n]}
			}
			if r.P(250) {
				s = Scalar{}
			}
			OptSet(fv, f.Kind, s)
		case Pointer:
			s := o.scalar(r, f.Kind)
			if r.P(250) {
				s = Scalar{}
			}
			p := reflect.New(fv.Type().Elem())
			Set(f.Kind, p.Elem(), s)
			fv.Set(p)
		case Repeated:
			n := o.count(r)
			if h := o.huge(r, f.Kind, true); h > 0 {
				n = h
			}
			huge := n > 2000
			for i := 0; i < n && (huge || o.Budget > -300); i++ {
				if f.Kind == Message {
					e := reflect.New(f.Msg.Type)
					if huge {
						randMsg(r, e.Elem(), f.Msg, o.part(r), 0)
					} else {
						o.Budget--
						randMsg(r, e.Elem(), f.Msg, o, depth-1)
					}
					fv.Set(reflect.Append(fv, e))
					continue
				}
				e := reflect.New(fv.Type().Elem()).Elem()
				if !r.P(200) {
					Set(f.Kind, e, o.scalar(r, f.Kind))
				} else if f.Kind == Bytes {
					Set(f.Kind, e, Scalar{})
				}
				fv.Set(reflect.Append(fv, e))
			}
		case Map:
			n := o.count(r)
			if h := o.huge(r, f.Kind, true); h > 0 && f.Key != Bool {
				n = h / 4
			}
			if n > 0 {
				fv.Set(reflect.MakeMap(fv.Type()))
			}
			huge := n > 500
			for i := 0; i < n && (huge || o.Budget > -300); i++ {
				kv := reflect.New(fv.Type().Key()).Elem()
				if !r.P(150) {
					Set(f.Key, kv, o.scalar(r, f.Key))
				}
				vv := reflect.New(fv.Type().Elem()).Elem()
				switch {
				case f.Kind == Message:
					e := reflect.New(f.Msg.Type)
					if huge {
						randMsg(r, e.Elem(), f.Msg, o.part(r), 0)
					} else {
						o.Budget--
						randMsg(r, e.Elem(), f.Msg, o, depth-1)
					}
					vv.Set(e)
				case r.P(150):
					if f.Kind == Bytes {
						Set(f.Kind, vv, Scalar{})
					}
				default:
					Set(f.Kind, vv, o.scalar(r, f.Kind))
				}
				fv.SetMapIndex(kv, vv)
			}
		}
	}
}

// ---- types ----

// FSpec describes one field of a generated type.
type FSpec struct {
	N   uint32 `json:"n"`
	K   string `json:"k"`
	C   string `json:"c"` // imp, opt, ptr, rep, map
	MK  string `json:"mk,omitempty"`
	Sub *TSpec `json:"sub,omitempty"`
	NM  bool   `json:"nm,omitempty"` // values and keys have named Go types
	T   string `json:"t,omitempty"`  // more words in the struct tag
}

// Named types, as of enums.
type (
	nBool   bool
	nInt32  int32
	nInt64  int64
	nUint32 uint32
	nUint64 uint64
	nFloat  float32
	nDouble float64
	nString string
	nBytes  []byte
)

var named = map[reflect.Type]reflect.Type{
	reflect.TypeOf(false):       reflect.TypeOf(nBool(false)),
	reflect.TypeOf(int32(0)):    reflect.TypeOf(nInt32(0)),
	reflect.TypeOf(int64(0)):    reflect.TypeOf(nInt64(0)),
	reflect.TypeOf(uint32(0)):   reflect.TypeOf(nUint32(0)),
	reflect.TypeOf(uint64(0)):   reflect.TypeOf(nUint64(0)),
	reflect.TypeOf(float32(0)):  reflect.TypeOf(nFloat(0)),
	reflect.TypeOf(float64(0)):  reflect.TypeOf(nDouble(0)),
	reflect.TypeOf(""):          reflect.TypeOf(nString("")),
	reflect.TypeOf([]byte(nil)): reflect.TypeOf(nBytes(nil)),
}

// tagWords are what other generators write into struct tags behind number and
// cardinality; the library does not look at them.
var tagWords = []string{"name=x", "name=zigzag32", "name=rep,proto3", "name=req,json=opt", "proto3", "name=a_b,json=aB,proto3", "enum=pkg.Enum",
	"name=fixed32,proto3,enum=a.b.Fixed64", "def=1,2,req", "name=n,def=zigzag64"}

// TSpec names or describes a message type.
type TSpec struct {
	Cat string  `json:"cat,omitempty"`
	F   []FSpec `json:"f,omitempty"`
	// Pad adds fields that are no protobuf fields.
	Pad  int `json:"pad,omitempty"`
	PadN int `json:"padn,omitempty"` // size of the first of them
}

// Catalog holds the types known by name.
var Catalog = map[string]reflect.Type{}

var specTypes = map[string]reflect.Type{}

// Type returns the Go type of a spec.
func (t *TSpec) Type() reflect.Type {
	if t.Cat != "" {
		ty := Catalog[t.Cat]
		if ty == nil {
			panic("no type " + t.Cat + " in the catalog")
		}
		return ty
	}
	js, _ := json.Marshal(t)
	if ty := specTypes[string(js)]; ty != nil {
		return ty
	}
	var fs []reflect.StructField
	for i := range t.F {
		f := &t.F[i]
		fs = append(fs, f.field(i))
		if t.Pad > 0 && i%t.Pad == 0 {
			pt := reflect.TypeOf(uint8(0))
			if i == 0 && t.PadN > 0 {
				pt = reflect.ArrayOf(t.PadN, pt)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Pad%d", i), Type: pt})
		}
	}
	ty := reflect.StructOf(fs)
	specTypes[string(js)] = ty
	return ty
}

func (t *TSpec) String() string {
	if t.Cat != "" {
		return t.Cat
	}
	js, _ := json.Marshal(t)
	return string(js)
}

func goType(k Kind, sub *TSpec) reflect.Type {
	switch k {
	case Bool:
		return reflect.TypeOf(false)
	case Int32, Sint32, Sfixed32:
		return reflect.TypeOf(int32(0))
	case Int64, Sint64, Sfixed64:
		return reflect.TypeOf(int64(0))
	case Uint32, Fixed32:
		return reflect.TypeOf(uint32(0))
	case Uint64, Fixed64:
		return reflect.TypeOf(uint64(0))
	case Float:
		return reflect.TypeOf(float32(0))
	case Double:
		return reflect.TypeOf(float64(0))
	case String:
		return reflect.TypeOf("")
	case Bytes:
		return reflect.TypeOf([]byte(nil))
	}
	return reflect.PtrTo(sub.Type())
}

func optType(k Kind) reflect.Type {
	switch k {
	case Bool:
		return reflect.TypeOf(proto.Option[bool]{})
	case Int32, Sint32, Sfixed32:
		return reflect.TypeOf(proto.Option[int32]{})
	case Int64, Sint64, Sfixed64:
		return reflect.TypeOf(proto.Option[int64]{})
	case Uint32, Fixed32:
		return reflect.TypeOf(proto.Option[uint32]{})
	case Uint64, Fixed64:
		return reflect.TypeOf(proto.Option[uint64]{})
	case Float:
		return reflect.TypeOf(proto.Option[float32]{})
	case Double:
		return reflect.TypeOf(proto.Option[float64]{})
	}
	return reflect.TypeOf(proto.Option[string]{})
}

func wireName(k Kind) string {
	switch k {
	case Sint32:
		return "zigzag32"
	case Sint64:
		return "zigzag64"
	}
	return [...]string{0: "varint", 1: "fixed64", 2: "bytes", 5: "fixed32"}[k.Wire()]
}

func (f *FSpec) field(i int) reflect.StructField {
	k := KindByName(f.K)
	sf := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
	card := "opt"
	wire := wireName(k)
	extra := ""
	goType := func(k Kind, sub *TSpec) reflect.Type {
		t := goType(k, sub)
		if n := named[t]; f.NM && n != nil {
			return n
		}
		return t
	}
	switch f.C {
	case "imp":
		sf.Type = goType(k, f.Sub)
	case "req":
		sf.Type = goType(k, f.Sub)
		if k != Bytes && k != Message {
			sf.Type = optType(k)
		}
		card = "req"
	case "opt":
		sf.Type = optType(k)
	case "ptr":
		sf.Type = reflect.PtrTo(goType(k, f.Sub))
	case "rep":
		sf.Type = reflect.SliceOf(goType(k, f.Sub))
		card = "rep"
	case "map":
		mk := KindByName(f.MK)
		sf.Type = reflect.MapOf(goType(mk, nil), goType(k, f.Sub))
		card = "rep"
		wire = "bytes"
		words := ""
		if f.T != "" {
			words = "," + f.T
		}
		extra = fmt.Sprintf(` protobuf_key:"%s,1,opt%s" protobuf_val:"%s,2,opt%s"`, wireName(mk), words, wireName(k), words)
	default:
		panic("card " + f.C)
	}
	if f.T != "" {
		card += "," + f.T
	}
	sf.Tag = reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,%s"`, wire, f.N, card) + extra)
	return sf
}

// RandSpec draws a message type.
func RandSpec(r *Rng, depth int, cats []string) *TSpec {
	t := &TSpec{}
	n := 1 + r.Intn(7)
	if r.P(40) {
		n = 60 + r.Intn(30)
	} else if r.P(100) {
		n = 10 + r.Intn(15)
	}
	if depth > 0 && r.P(8) {
		n = r.Pick(127, 128, 129, 200, 257, 300)
	}
	if r.P(200) {
		t.Pad = 1 + r.Intn(3)
		if r.P(40) { // fields far from the start of the struct
			t.PadN = r.Pick(250, 4090, 32760, 65530, 70001)
		}
	}
	used := map[uint32]bool{}
	num := func() uint32 {
		for {
			var x uint32
			switch r.Intn(10) {
			case 0:
				x = uint32(r.Pick(15, 16, 17, 127, 128, 2047, 2048, 18999, 20000))
			case 1:
				x = uint32(r.Pick(1<<29-1, 1<<28, 1<<20, 150000, 1<<25-1, 1<<25, 1<<18-1, 1<<18))
			case 2:
				x = uint32(1 + r.Intn(3000))
			default:
				x = uint32(1 + r.Intn(2*n+4))
			}
			if !used[x] {
				used[x] = true
				return x
			}
		}
	}
	homog := Kind(0)
	useHomog := r.P(200) // many fields of one Go type in different wire forms
	if useHomog {
		homog = Kind(r.Intn(int(Message)))
	}
	family := func(k Kind) Kind {
		fams := [][]Kind{{Int32, Sint32, Sfixed32}, {Int64, Sint64, Sfixed64}, {Uint32, Fixed32}, {Uint64, Fixed64}, {Float}, {Double}, {Bool}, {String}, {Bytes}}
		for _, f := range fams {
			for _, x := range f {
				if x == k {
					return f[r.Intn(len(f))]
				}
			}
		}
		return k
	}
	names, words := r.P(120), r.P(120)
	for i := 0; i < n; i++ {
		f := FSpec{N: num(), NM: names && r.P(500)}
		if words && r.P(500) {
			f.T = tagWords[r.Intn(len(tagWords))]
		}
		k := Kind(r.Intn(int(Message)))
		if useHomog {
			k = family(homog)
		}
		f.C = []string{"imp", "imp", "opt", "ptr", "rep", "rep", "map", "map", "req"}[r.Intn(9)]
		if depth > 0 && r.P(280) {
			k = Message
			f.C = []string{"imp", "imp", "rep", "map"}[r.Intn(4)]
			if len(cats) > 0 && r.P(300) {
				f.Sub = &TSpec{Cat: cats[r.Intn(len(cats))]}
			} else {
				f.Sub = RandSpec(r, depth-1, cats)
				if len(f.Sub.F) > 12 && depth < 2 {
					f.Sub.F = f.Sub.F[:12]
				}
			}
		}
		if (f.C == "opt") && k == Bytes {
			f.C = "imp"
		}
		if f.C == "ptr" && k == Bytes {
			f.C = "rep"
		}
		if f.C == "map" {
			for {
				mk := Kind(r.Intn(int(String) + 1))
				if mk != Float && mk != Double {
					f.MK = mk.String()
					break
				}
			}
		}
		f.K = k.String()
		t.F = append(t.F, f)
	}
	return t
}

// Project returns the spec with some fields left out, at any depth: an older
// version of the schema.
func (t *TSpec) Project(r *Rng, drop int) *TSpec {
	if t.Cat != "" {
		return t
	}
	o := &TSpec{Pad: t.Pad, PadN: t.PadN}
	for _, f := range t.F {
		if r.P(drop) {
			continue
		}
		if f.Sub != nil {
			f.Sub = f.Sub.Project(r, drop)
		}
		o.F = append(o.F, f)
	}
	return o
}

// Shape is a short name of the kinds in a spec, for statistics.
func (t *TSpec) Shape() string {
	if t.Cat != "" {
		return t.Cat
	}
	var sb strings.Builder
	for _, f := range t.F {
		sb.WriteString(f.C + ":" + f.K + ",")
	}
	return sb.String()
}

// Hash tells specs apart.
func (t *TSpec) Hash() uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, c := range []byte(t.String()) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	return h
}

// Package cat is the catalog of hand-written message types of the simulation.
package cat

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// Node is recursive in every way.
type Node struct {
	V    int32            `protobuf:"varint,1,opt"`
	L    *Node            `protobuf:"bytes,2,opt"`
	R    *Node            `protobuf:"bytes,3,opt"`
	Kids []*Node          `protobuf:"bytes,4,rep"`
	M    map[string]*Node `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Name string           `protobuf:"bytes,6,opt"`
	B    []byte           `protobuf:"bytes,7,opt"`
}

// List is recursive through its first field.
type List struct {
	Next *List               `protobuf:"bytes,1,opt"`
	V    proto.Option[int64] `protobuf:"zigzag64,2,opt"`
}

// MapList is recursive through a map only.
type MapList struct {
	Next map[int32]*MapList `protobuf:"bytes,1,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	S    []string           `protobuf:"bytes,2,rep"`
}

// SliceList is recursive through a repeated field only.
type SliceList struct {
	Kids []*SliceList `protobuf:"bytes,1,rep"`
	N    []int32      `protobuf:"zigzag32,2,rep"`
}

// MA, MB and MC refer to each other.
type MA struct {
	B  *MB           `protobuf:"bytes,1,opt"`
	N  int64         `protobuf:"varint,2,opt"`
	MB map[int32]*MB `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	Lf *Leaf         `protobuf:"bytes,4,opt"`
}

// MB is part of the cycle.
type MB struct {
	C  []*MC                 `protobuf:"bytes,1,rep"`
	A  *MA                   `protobuf:"bytes,2,opt"`
	F  float64               `protobuf:"fixed64,3,opt"`
	Lf []*Leaf               `protobuf:"bytes,4,rep"`
	O  proto.Option[float32] `protobuf:"fixed32,5,opt"`
}

// MC is part of the cycle.
type MC struct {
	A *MA                  `protobuf:"bytes,1,opt"`
	S proto.Option[string] `protobuf:"bytes,2,opt"`
	C *MC                  `protobuf:"bytes,3,opt"`
}

// Ping and Pong only refer to each other.
type Ping struct {
	P *Pong  `protobuf:"bytes,1,opt"`
	N uint32 `protobuf:"varint,2,opt"`
}

// Pong is the other half of Ping.
type Pong struct {
	P []*Ping `protobuf:"bytes,1,rep"`
	S string  `protobuf:"bytes,2,opt"`
}

// Leaf is shared by many types.
type Leaf struct {
	A int32                `protobuf:"varint,1,opt"`
	S string               `protobuf:"bytes,2,opt"`
	B []byte               `protobuf:"bytes,3,opt"`
	O proto.Option[uint64] `protobuf:"varint,4,opt"`
	R []uint32             `protobuf:"fixed32,5,rep"`
}

// Out1 uses Leaf.
type Out1 struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	N int32 `protobuf:"varint,2,opt"`
}

// Out2 uses Leaf.
type Out2 struct {
	L []*Leaf `protobuf:"bytes,1,rep"`
	O *Out1   `protobuf:"bytes,2,opt"`
}

// Out3 uses Leaf.
type Out3 struct {
	L map[string]*Leaf `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	M map[int64]*Leaf  `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	O *Out2            `protobuf:"bytes,3,opt"`
	P *Out1            `protobuf:"bytes,4,opt"`
}

// Mix32 has one Go type in all its wire forms.
type Mix32 struct {
	A  int32               `protobuf:"varint,1,opt"`
	B  int32               `protobuf:"zigzag32,2,opt"`
	C  int32               `protobuf:"fixed32,3,opt"`
	RA []int32             `protobuf:"varint,4,rep"`
	RB []int32             `protobuf:"zigzag32,5,rep"`
	RC []int32             `protobuf:"fixed32,6,rep"`
	PA *int32              `protobuf:"varint,7,opt"`
	PB *int32              `protobuf:"zigzag32,8,opt"`
	PC *int32              `protobuf:"fixed32,9,opt"`
	MA map[int32]int32     `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	MB map[int32]int32     `protobuf:"bytes,11,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	MC map[int32]int32     `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	MD map[int32]int32     `protobuf:"bytes,13,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag32,2,opt"`
	OA proto.Option[int32] `protobuf:"varint,14,opt"`
	OB proto.Option[int32] `protobuf:"zigzag32,15,opt"`
	OC proto.Option[int32] `protobuf:"fixed32,16,opt"`
	UA []uint32            `protobuf:"varint,17,rep"`
	UB []uint32            `protobuf:"fixed32,18,rep"`
}

// Mix64 is Mix32 for 64 bits, in another order.
type Mix64 struct {
	MD map[int64]int64     `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	MC map[int64]int64     `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	MB map[int64]int64     `protobuf:"bytes,11,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	MA map[int64]int64     `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	PC *int64              `protobuf:"fixed64,9,opt"`
	PB *int64              `protobuf:"zigzag64,8,opt"`
	PA *int64              `protobuf:"varint,7,opt"`
	RC []int64             `protobuf:"fixed64,6,rep"`
	RB []int64             `protobuf:"zigzag64,5,rep"`
	RA []int64             `protobuf:"varint,4,rep"`
	C  int64               `protobuf:"fixed64,3,opt"`
	B  int64               `protobuf:"zigzag64,2,opt"`
	A  int64               `protobuf:"varint,1,opt"`
	OA proto.Option[int64] `protobuf:"varint,14,opt"`
	OB proto.Option[int64] `protobuf:"zigzag64,15,opt"`
	OC proto.Option[int64] `protobuf:"fixed64,16,opt"`
	UA []uint64            `protobuf:"varint,17,rep"`
	UB []uint64            `protobuf:"fixed64,18,rep"`
}

// V1 and V2 have one layout and different wire forms.
type V1 struct {
	A int32   `protobuf:"varint,1,opt"`
	B uint64  `protobuf:"varint,2,opt"`
	S string  `protobuf:"bytes,3,opt"`
	R []int32 `protobuf:"varint,4,rep"`
}

// V2 is V1 with other wire forms and numbers.
type V2 struct {
	A int32   `protobuf:"zigzag32,3,opt"`
	B uint64  `protobuf:"fixed64,1,opt"`
	S string  `protobuf:"bytes,2,opt"`
	R []int32 `protobuf:"fixed32,5,rep"`
}

// All has a field of every kind.
type All struct {
	Bo  bool                  `protobuf:"varint,1,opt"`
	I3  int32                 `protobuf:"varint,2,opt"`
	I6  int64                 `protobuf:"varint,3,opt"`
	U3  uint32                `protobuf:"varint,4,opt"`
	U6  uint64                `protobuf:"varint,5,opt"`
	S3  int32                 `protobuf:"zigzag32,6,opt"`
	S6  int64                 `protobuf:"zigzag64,7,opt"`
	F3  uint32                `protobuf:"fixed32,8,opt"`
	F6  uint64                `protobuf:"fixed64,9,opt"`
	G3  int32                 `protobuf:"fixed32,10,opt"`
	G6  int64                 `protobuf:"fixed64,11,opt"`
	Fl  float32               `protobuf:"fixed32,12,opt"`
	Db  float64               `protobuf:"fixed64,13,opt"`
	St  string                `protobuf:"bytes,14,opt"`
	By  []byte                `protobuf:"bytes,15,opt"`
	Ms  *Leaf                 `protobuf:"bytes,16,opt"`
	OBo proto.Option[bool]    `protobuf:"varint,17,opt"`
	OFl proto.Option[float32] `protobuf:"fixed32,18,opt"`
	ODb proto.Option[float64] `protobuf:"fixed64,19,opt"`
	OSt proto.Option[string]  `protobuf:"bytes,20,req"`
	RBo []bool                `protobuf:"varint,21,rep"`
	RFl []float32             `protobuf:"fixed32,22,rep"`
	RDb []float64             `protobuf:"fixed64,23,rep"`
	RSt []string              `protobuf:"bytes,24,rep"`
	RBy [][]byte              `protobuf:"bytes,25,rep"`
	RMs []*Leaf               `protobuf:"bytes,26,rep"`
	PBo *bool                 `protobuf:"varint,27,opt"`
	PSt *string               `protobuf:"bytes,28,opt"`
	PDb *float64              `protobuf:"fixed64,29,opt"`
	MSS map[string]string     `protobuf:"bytes,30,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	MSB map[string][]byte     `protobuf:"bytes,31,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	MBM map[bool]*Leaf        `protobuf:"bytes,32,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	MUF map[uint64]float64    `protobuf:"bytes,33,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	MUb map[uint32]bool       `protobuf:"bytes,34,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

// Far has large field numbers.
type Far struct {
	A int32              `protobuf:"varint,15,opt"`
	B int32              `protobuf:"varint,16,opt"`
	C string             `protobuf:"bytes,2047,opt"`
	D string             `protobuf:"bytes,2048,opt"`
	E []int64            `protobuf:"varint,262143,rep"`
	F map[string]int32   `protobuf:"bytes,262144,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	G *Far               `protobuf:"bytes,33554431,opt"`
	H []*Far             `protobuf:"bytes,33554432,rep"`
	I proto.Option[bool] `protobuf:"varint,536870911,opt"`
}

// Gaps has fields the library must leave alone between the tagged ones.
type Gaps struct {
	hidden int
	A      int32 `protobuf:"varint,1,opt"`
	Plain  string
	B      []byte `protobuf:"bytes,2,opt"`
	priv   *int
	C      map[string]int32 `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	Other  []int
	D      *Gaps `protobuf:"bytes,4,opt"`
	_      [0]func()
}

// NodeOld is Node before some fields were added.
type NodeOld struct {
	V    int32               `protobuf:"varint,1,opt"`
	R    *NodeOld            `protobuf:"bytes,3,opt"`
	M    map[string]*NodeOld `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Name string              `protobuf:"bytes,6,opt"`
}

// LeafOld is an older Leaf.
type LeafOld struct {
	B []byte   `protobuf:"bytes,3,opt"`
	R []uint32 `protobuf:"fixed32,5,rep"`
}

// AllOld is an older All.
type AllOld struct {
	I3  int32                `protobuf:"varint,2,opt"`
	S6  int64                `protobuf:"zigzag64,7,opt"`
	Db  float64              `protobuf:"fixed64,13,opt"`
	Ms  *LeafOld             `protobuf:"bytes,16,opt"`
	RMs []*LeafOld           `protobuf:"bytes,26,rep"`
	MSB map[string][]byte    `protobuf:"bytes,31,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	MBM map[bool]*LeafOld    `protobuf:"bytes,32,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	OSt proto.Option[string] `protobuf:"bytes,20,opt"`
}

// MAOld is an older MA.
type MAOld struct {
	B  *MBOld           `protobuf:"bytes,1,opt"`
	MB map[int32]*MBOld `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// MBOld is an older MB.
type MBOld struct {
	A *MAOld  `protobuf:"bytes,2,opt"`
	F float64 `protobuf:"fixed64,3,opt"`
}

// FarOld is an older Far.
type FarOld struct {
	B int32              `protobuf:"varint,16,opt"`
	D string             `protobuf:"bytes,2048,opt"`
	H []*FarOld          `protobuf:"bytes,33554432,rep"`
	I proto.Option[bool] `protobuf:"varint,536870911,opt"`
}

// Out3Old is an older Out3.
type Out3Old struct {
	M map[int64]*LeafOld `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	P *Empty             `protobuf:"bytes,4,opt"`
}

// Empty has no fields.
type Empty struct{}

// HasEmpty uses Empty.
type HasEmpty struct {
	E *Empty            `protobuf:"bytes,1,opt"`
	R []*Empty          `protobuf:"bytes,2,rep"`
	M map[string]*Empty `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	N int32             `protobuf:"varint,4,opt"`
}

// Ring0 is part of a cycle of 12 types.
type Ring0 struct {
	N *Ring1 `protobuf:"bytes,1,opt"`
	V int32  `protobuf:"zigzag32,2,opt"`
}

// Ring1 is part of a cycle of 12 types.
type Ring1 struct {
	N []*Ring2 `protobuf:"bytes,1,rep"`
	V string   `protobuf:"bytes,2,opt"`
}

// Ring2 is part of a cycle of 12 types.
type Ring2 struct {
	N map[int32]*Ring3 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	V []int32          `protobuf:"fixed32,2,rep"`
}

// Ring3 is part of a cycle of 12 types.
type Ring3 struct {
	N *Ring4              `protobuf:"bytes,1,opt"`
	V proto.Option[int64] `protobuf:"varint,2,opt"`
}

// Ring4 is part of a cycle of 12 types.
type Ring4 struct {
	N []*Ring5 `protobuf:"bytes,1,rep"`
	V []byte   `protobuf:"bytes,2,opt"`
}

// Ring5 is part of a cycle of 12 types.
type Ring5 struct {
	N map[int32]*Ring6 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	V int32            `protobuf:"zigzag32,2,opt"`
}

// Ring6 is part of a cycle of 12 types.
type Ring6 struct {
	N *Ring7 `protobuf:"bytes,1,opt"`
	V string `protobuf:"bytes,2,opt"`
}

// Ring7 is part of a cycle of 12 types.
type Ring7 struct {
	N []*Ring8 `protobuf:"bytes,1,rep"`
	V []int32  `protobuf:"fixed32,2,rep"`
	B *Ring2   `protobuf:"bytes,3,opt"`
}

// Ring8 is part of a cycle of 12 types.
type Ring8 struct {
	N map[int32]*Ring9    `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	V proto.Option[int64] `protobuf:"varint,2,opt"`
}

// Ring9 is part of a cycle of 12 types.
type Ring9 struct {
	N *Ring10 `protobuf:"bytes,1,opt"`
	V []byte  `protobuf:"bytes,2,opt"`
}

// Ring10 is part of a cycle of 12 types.
type Ring10 struct {
	N []*Ring11 `protobuf:"bytes,1,rep"`
	V int32     `protobuf:"zigzag32,2,opt"`
	B []*Ring5  `protobuf:"bytes,3,rep"`
}

// Ring11 is part of a cycle of 12 types.
type Ring11 struct {
	N map[int32]*Ring0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	V string           `protobuf:"bytes,2,opt"`
}

// Names of the groups of types.
var (
	Recursive = []string{"Node", "List", "MapList", "SliceList", "MA", "MB", "MC", "Ping", "Pong", "Far", "Ring0", "Ring4", "Ring8"}
	Shared    = []string{"Leaf", "Out1", "Out2", "Out3", "MA", "MB", "All", "HasEmpty", "Empty"}
	Mixed     = []string{"Mix32", "Mix64", "V1", "V2", "All", "SameA", "SameB", "SameC", "SameD"}
	All_      []string
	Maps      = []string{"Node", "MapList", "Out3", "Mix32", "Mix64", "All", "MA", "Far", "HasEmpty", "Gaps"}
)

func reg(name string, v interface{}) {
	ref.Catalog[name] = reflect.TypeOf(v)
	All_ = append(All_, name)
}

func sameA() interface{} {
	type Msg struct {
		A int32            `protobuf:"varint,1,opt"`
		M map[int32]string `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		L *Leaf            `protobuf:"bytes,3,opt"`
	}
	return Msg{}
}

func sameB() interface{} {
	type Msg struct {
		A int32            `protobuf:"zigzag32,1,opt"`
		M map[int32]string `protobuf:"bytes,2,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
		L *Leaf            `protobuf:"bytes,4,opt"`
	}
	return Msg{}
}

func sameC() interface{} {
	type Sub struct {
		X string `protobuf:"bytes,1,opt"`
	}
	type Msg struct {
		S *Sub            `protobuf:"bytes,1,opt"`
		R []*Sub          `protobuf:"bytes,2,rep"`
		M map[string]*Sub `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return Msg{}
}

func sameD() interface{} {
	type Sub struct {
		Y uint64 `protobuf:"varint,2,opt"`
		X string `protobuf:"bytes,3,opt"`
	}
	type Msg struct {
		S *Sub            `protobuf:"bytes,1,opt"`
		R []*Sub          `protobuf:"bytes,2,rep"`
		M map[string]*Sub `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return Msg{}
}

func init() {
	reg("Node", Node{})
	reg("List", List{})
	reg("MapList", MapList{})
	reg("SliceList", SliceList{})
	reg("MA", MA{})
	reg("MB", MB{})
	reg("MC", MC{})
	reg("Ping", Ping{})
	reg("Pong", Pong{})
	reg("Leaf", Leaf{})
	reg("Out1", Out1{})
	reg("Out2", Out2{})
	reg("Out3", Out3{})
	reg("Mix32", Mix32{})
	reg("Mix64", Mix64{})
	reg("V1", V1{})
	reg("V2", V2{})
	reg("All", All{})
	reg("Far", Far{})
	reg("Ring0", Ring0{})
	reg("Ring1", Ring1{})
	reg("Ring2", Ring2{})
	reg("Ring3", Ring3{})
	reg("Ring4", Ring4{})
	reg("Ring5", Ring5{})
	reg("Ring6", Ring6{})
	reg("Ring7", Ring7{})
	reg("Ring8", Ring8{})
	reg("Ring9", Ring9{})
	reg("Ring10", Ring10{})
	reg("Ring11", Ring11{})
	reg("Gaps", Gaps{})
	reg("Empty", Empty{})
	reg("HasEmpty", HasEmpty{})
	reg("NodeOld", NodeOld{})
	reg("LeafOld", LeafOld{})
	reg("AllOld", AllOld{})
	reg("MAOld", MAOld{})
	reg("MBOld", MBOld{})
	reg("FarOld", FarOld{})
	reg("Out3Old", Out3Old{})
	reg("SameA", sameA())
	reg("SameB", sameB())
	reg("SameC", sameC())
	reg("SameD", sameD())
}

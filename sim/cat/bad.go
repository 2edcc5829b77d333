package cat

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"
)

// Types the library cannot represent: each must be rejected by every call
// that has to encode or decode it.

type badInner struct {
	X chan int `protobuf:"bytes,1,opt"`
}

type BadChan struct {
	A int32    `protobuf:"varint,1,opt"`
	L *Leaf    `protobuf:"bytes,2,opt"`
	X chan int `protobuf:"varint,3,opt"`
}

type BadFunc struct {
	X func() `protobuf:"bytes,3,opt"`
	N *Node  `protobuf:"bytes,2,opt"`
}

type BadIface struct {
	N *Node       `protobuf:"bytes,2,opt"`
	X interface{} `protobuf:"bytes,3,opt"`
	P *Ping       `protobuf:"bytes,4,opt"`
}

type BadInt struct {
	L []*Leaf `protobuf:"bytes,1,rep"`
	X int     `protobuf:"varint,2,opt"`
}

type BadInt8 struct {
	X int8 `protobuf:"varint,2,opt"`
}

type BadArray struct {
	X [4]byte `protobuf:"bytes,2,opt"`
	L *Out1   `protobuf:"bytes,3,opt"`
}

type BadComplex struct {
	X complex128 `protobuf:"fixed64,2,opt"`
}

type BadStructVal struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	X Leaf  `protobuf:"bytes,2,opt"`
}

type BadSliceOfStruct struct {
	L *Leaf  `protobuf:"bytes,1,opt"`
	X []Leaf `protobuf:"bytes,2,rep"`
}

type BadSliceSlice struct {
	O *Out2     `protobuf:"bytes,1,opt"`
	X [][]int32 `protobuf:"varint,2,rep"`
}

type BadMapVal struct {
	O *Out2              `protobuf:"bytes,1,opt"`
	X map[string][]int32 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}

type BadMapStruct struct {
	X map[string]Leaf `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	O *Out3           `protobuf:"bytes,1,opt"`
}

type BadMapChan struct {
	O *MA                 `protobuf:"bytes,1,opt"`
	X map[string]chan int `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type BadMapKey struct {
	X map[[2]int32]string `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	O *List               `protobuf:"bytes,1,opt"`
}

type BadGroup struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	X *Leaf `protobuf:"group,2,opt"`
}

type BadWire struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	X int32 `protobuf:"zigzag,2,opt"`
}

type BadNum struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	X int32 `protobuf:"varint,x,opt"`
}

type BadLabel struct {
	L *Leaf `protobuf:"bytes,1,opt"`
	X int32 `protobuf:"varint,2,many"`
}

type BadPtrSlice struct {
	L *Leaf    `protobuf:"bytes,1,opt"`
	X *[]int32 `protobuf:"varint,2,rep"`
}

type BadPtrMap struct {
	L *Leaf             `protobuf:"bytes,1,opt"`
	X *map[string]int32 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}

type BadOption struct {
	L *Leaf             `protobuf:"bytes,1,opt"`
	X proto.Option[int] `protobuf:"varint,2,opt"`
}

// BadNested contains a rejected type and good ones.
type BadNested struct {
	L *Leaf     `protobuf:"bytes,1,opt"`
	N *Node     `protobuf:"bytes,2,opt"`
	X *badInner `protobuf:"bytes,3,opt"`
	P *Pong     `protobuf:"bytes,4,opt"`
}

// BadDeep is recursive and rejected because of a type further down.
type BadDeep struct {
	Self *BadDeep              `protobuf:"bytes,1,opt"`
	L    *Leaf                 `protobuf:"bytes,2,opt"`
	M    map[string]*BadNested `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

// BadRec refers to itself before the field that is rejected.
type BadRec struct {
	Kids []*BadRec          `protobuf:"bytes,1,rep"`
	M    map[string]*BadRec `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	B    *BadBack           `protobuf:"bytes,3,opt"`
	X    uintptr            `protobuf:"varint,4,opt"`
}

// BadBack refers back to BadRec.
type BadBack struct {
	R *BadRec `protobuf:"bytes,1,opt"`
	L *Out3   `protobuf:"bytes,2,opt"`
}

// Bad lists the rejected types.
var Bad = map[string]reflect.Type{}

// BadNames lists their names in order.
var BadNames []string

func bad(v interface{}) {
	t := reflect.TypeOf(v)
	badAs(t.Name(), v)
}

func badAs(name string, v interface{}) {
	Bad[name] = reflect.TypeOf(v)
	BadNames = append(BadNames, name)
}

// Twins lists, for types that are supported, rejected types of the same name.
var Twins = map[string][]string{
	"SameA": {"~Msg1", "~Msg2", "~Msg3"}, "SameB": {"~Msg1", "~Msg2", "~Msg3"}, "SameC": {"~Msg1", "~Msg2", "~Msg3"}, "SameD": {"~Msg1", "~Msg3"},
	"Leaf": {"~Leaf"}, "Node": {"~Node"}, "Empty": {"~Empty"}, "MA": {"~MA"},
}

// laid out like SameA
func badMsg1() interface{} {
	type Msg struct {
		A int32          `protobuf:"varint,1,opt"`
		M map[int32]bool `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
		L chan int       `protobuf:"bytes,3,opt"`
	}
	return Msg{}
}

// a sub-message that is rejected, with the name of one that is not
func badMsg2() interface{} {
	type Sub struct {
		X string    `protobuf:"bytes,1,opt"`
		Y complex64 `protobuf:"bytes,2,opt"`
	}
	type Msg struct {
		S *Sub            `protobuf:"bytes,1,opt"`
		R []*Sub          `protobuf:"bytes,2,rep"`
		M map[string]*Sub `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return Msg{}
}

func badMsg3() interface{} {
	type Msg struct {
		L *Leaf  `protobuf:"bytes,1,opt"`
		A int32  `protobuf:"groups,2,opt"`
		B string `protobuf:"bytes,3,opt"`
	}
	return Msg{}
}

func badLeaf() interface{} {
	type Leaf struct {
		A int32  `protobuf:"varint,1,opt"`
		X func() `protobuf:"bytes,2,opt"`
	}
	return Leaf{}
}

func badNode() interface{} {
	type Node struct {
		Next *Node           `protobuf:"bytes,1,opt"`
		L    []*Leaf         `protobuf:"bytes,2,rep"`
		X    map[string]*int `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"wire,2,opt"`
		Y    interface{}     `protobuf:"bytes,4,opt"`
	}
	return Node{}
}

func badEmpty() interface{} {
	type Empty struct {
		X struct{} `protobuf:"bytes,1,opt"`
		Y [0]int   `protobuf:"bytes,2,opt"`
	}
	return Empty{}
}

func badMA() interface{} {
	type MA struct {
		B *MB   `protobuf:"bytes,1,opt"`
		A []*MA `protobuf:"bytes,2,rep"`
		X int8  `protobuf:"varint,3,opt"`
	}
	return MA{}
}

func init() {
	bad(BadChan{})
	bad(BadFunc{})
	bad(BadIface{})
	bad(BadInt{})
	bad(BadInt8{})
	bad(BadArray{})
	bad(BadComplex{})
	bad(BadStructVal{})
	bad(BadSliceOfStruct{})
	bad(BadSliceSlice{})
	bad(BadMapVal{})
	bad(BadMapStruct{})
	bad(BadMapChan{})
	bad(BadMapKey{})
	bad(BadGroup{})
	bad(BadWire{})
	bad(BadNum{})
	bad(BadLabel{})
	bad(BadPtrSlice{})
	bad(BadPtrMap{})
	bad(BadOption{})
	bad(BadNested{})
	bad(BadDeep{})
	bad(BadRec{})
	bad(BadBack{})
	badAs("~Msg1", badMsg1())
	badAs("~Msg2", badMsg2())
	badAs("~Msg3", badMsg3())
	badAs("~Leaf", badLeaf())
	badAs("~Node", badNode())
	badAs("~Empty", badEmpty())
	badAs("~MA", badMA())
}

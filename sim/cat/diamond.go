package cat

import "reflect"

// Families of message types in which each level refers to the next one in three
// ways: the ways to the last level grow exponentially with the levels, the types
// do not.

type dia0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *dia1           `protobuf:"bytes,2,opt"`
	B []*dia1         `protobuf:"bytes,3,rep"`
	C map[int32]*dia1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type dia1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *dia2           `protobuf:"bytes,2,opt"`
	B []*dia2         `protobuf:"bytes,3,rep"`
	C map[int32]*dia2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type dia2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *dia3           `protobuf:"bytes,2,opt"`
	B []*dia3         `protobuf:"bytes,3,rep"`
	C map[int32]*dia3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type dia3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *dia4           `protobuf:"bytes,2,opt"`
	B []*dia4         `protobuf:"bytes,3,rep"`
	C map[int32]*dia4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type dia4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *dia5           `protobuf:"bytes,2,opt"`
	B []*dia5         `protobuf:"bytes,3,rep"`
	C map[int32]*dia5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type dia5 struct {
	X int32 `protobuf:"varint,1,opt"`
}

type Dia0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia1           `protobuf:"bytes,2,opt"`
	B []*Dia1         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia2           `protobuf:"bytes,2,opt"`
	B []*Dia2         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia3           `protobuf:"bytes,2,opt"`
	B []*Dia3         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia4           `protobuf:"bytes,2,opt"`
	B []*Dia4         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia5           `protobuf:"bytes,2,opt"`
	B []*Dia5         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia5 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia6           `protobuf:"bytes,2,opt"`
	B []*Dia6         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia6 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia6 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia7           `protobuf:"bytes,2,opt"`
	B []*Dia7         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia7 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia7 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia8           `protobuf:"bytes,2,opt"`
	B []*Dia8         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia8 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia8 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Dia9           `protobuf:"bytes,2,opt"`
	B []*Dia9         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia9 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia9 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia10           `protobuf:"bytes,2,opt"`
	B []*Dia10         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia10 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia10 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia11           `protobuf:"bytes,2,opt"`
	B []*Dia11         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia11 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia11 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia12           `protobuf:"bytes,2,opt"`
	B []*Dia12         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia12 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia12 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia13           `protobuf:"bytes,2,opt"`
	B []*Dia13         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia13 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia13 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia14           `protobuf:"bytes,2,opt"`
	B []*Dia14         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia14 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia14 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia15           `protobuf:"bytes,2,opt"`
	B []*Dia15         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia15 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia15 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia16           `protobuf:"bytes,2,opt"`
	B []*Dia16         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia16 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia16 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia17           `protobuf:"bytes,2,opt"`
	B []*Dia17         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia17 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia17 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia18           `protobuf:"bytes,2,opt"`
	B []*Dia18         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia18 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia18 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia19           `protobuf:"bytes,2,opt"`
	B []*Dia19         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia19 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia19 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia20           `protobuf:"bytes,2,opt"`
	B []*Dia20         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia20 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia20 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia21           `protobuf:"bytes,2,opt"`
	B []*Dia21         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia21 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia21 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia22           `protobuf:"bytes,2,opt"`
	B []*Dia22         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia22 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia22 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Dia23           `protobuf:"bytes,2,opt"`
	B []*Dia23         `protobuf:"bytes,3,rep"`
	C map[int32]*Dia23 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Dia23 struct {
	X int32 `protobuf:"varint,1,opt"`
}

type cyc0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *cyc1           `protobuf:"bytes,2,opt"`
	B []*cyc1         `protobuf:"bytes,3,rep"`
	C map[int32]*cyc1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type cyc1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *cyc2           `protobuf:"bytes,2,opt"`
	B []*cyc2         `protobuf:"bytes,3,rep"`
	C map[int32]*cyc2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *cyc0           `protobuf:"bytes,5,opt"`
}

type cyc2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *cyc3           `protobuf:"bytes,2,opt"`
	B []*cyc3         `protobuf:"bytes,3,rep"`
	C map[int32]*cyc3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *cyc1           `protobuf:"bytes,5,opt"`
}

type cyc3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *cyc4           `protobuf:"bytes,2,opt"`
	B []*cyc4         `protobuf:"bytes,3,rep"`
	C map[int32]*cyc4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *cyc2           `protobuf:"bytes,5,opt"`
}

type cyc4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *cyc5           `protobuf:"bytes,2,opt"`
	B []*cyc5         `protobuf:"bytes,3,rep"`
	C map[int32]*cyc5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *cyc3           `protobuf:"bytes,5,opt"`
}

type cyc5 struct {
	X int32 `protobuf:"varint,1,opt"`
	U *cyc4 `protobuf:"bytes,5,opt"`
}

type Cyc0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc1           `protobuf:"bytes,2,opt"`
	B []*Cyc1         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Cyc1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc2           `protobuf:"bytes,2,opt"`
	B []*Cyc2         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc0           `protobuf:"bytes,5,opt"`
}

type Cyc2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc3           `protobuf:"bytes,2,opt"`
	B []*Cyc3         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc1           `protobuf:"bytes,5,opt"`
}

type Cyc3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc4           `protobuf:"bytes,2,opt"`
	B []*Cyc4         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc2           `protobuf:"bytes,5,opt"`
}

type Cyc4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc5           `protobuf:"bytes,2,opt"`
	B []*Cyc5         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc3           `protobuf:"bytes,5,opt"`
}

type Cyc5 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc6           `protobuf:"bytes,2,opt"`
	B []*Cyc6         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc6 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc4           `protobuf:"bytes,5,opt"`
}

type Cyc6 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc7           `protobuf:"bytes,2,opt"`
	B []*Cyc7         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc7 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc5           `protobuf:"bytes,5,opt"`
}

type Cyc7 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc8           `protobuf:"bytes,2,opt"`
	B []*Cyc8         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc8 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc6           `protobuf:"bytes,5,opt"`
}

type Cyc8 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Cyc9           `protobuf:"bytes,2,opt"`
	B []*Cyc9         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc9 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc7           `protobuf:"bytes,5,opt"`
}

type Cyc9 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc10           `protobuf:"bytes,2,opt"`
	B []*Cyc10         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc10 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc8            `protobuf:"bytes,5,opt"`
}

type Cyc10 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc11           `protobuf:"bytes,2,opt"`
	B []*Cyc11         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc11 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc9            `protobuf:"bytes,5,opt"`
}

type Cyc11 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc12           `protobuf:"bytes,2,opt"`
	B []*Cyc12         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc12 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc10           `protobuf:"bytes,5,opt"`
}

type Cyc12 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc13           `protobuf:"bytes,2,opt"`
	B []*Cyc13         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc13 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc11           `protobuf:"bytes,5,opt"`
}

type Cyc13 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc14           `protobuf:"bytes,2,opt"`
	B []*Cyc14         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc14 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc12           `protobuf:"bytes,5,opt"`
}

type Cyc14 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc15           `protobuf:"bytes,2,opt"`
	B []*Cyc15         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc15 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc13           `protobuf:"bytes,5,opt"`
}

type Cyc15 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc16           `protobuf:"bytes,2,opt"`
	B []*Cyc16         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc16 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc14           `protobuf:"bytes,5,opt"`
}

type Cyc16 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc17           `protobuf:"bytes,2,opt"`
	B []*Cyc17         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc17 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc15           `protobuf:"bytes,5,opt"`
}

type Cyc17 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc18           `protobuf:"bytes,2,opt"`
	B []*Cyc18         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc18 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc16           `protobuf:"bytes,5,opt"`
}

type Cyc18 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc19           `protobuf:"bytes,2,opt"`
	B []*Cyc19         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc19 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc17           `protobuf:"bytes,5,opt"`
}

type Cyc19 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc20           `protobuf:"bytes,2,opt"`
	B []*Cyc20         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc20 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc18           `protobuf:"bytes,5,opt"`
}

type Cyc20 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc21           `protobuf:"bytes,2,opt"`
	B []*Cyc21         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc21 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc19           `protobuf:"bytes,5,opt"`
}

type Cyc21 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc22           `protobuf:"bytes,2,opt"`
	B []*Cyc22         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc22 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc20           `protobuf:"bytes,5,opt"`
}

type Cyc22 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Cyc23           `protobuf:"bytes,2,opt"`
	B []*Cyc23         `protobuf:"bytes,3,rep"`
	C map[int32]*Cyc23 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	U *Cyc21           `protobuf:"bytes,5,opt"`
}

type Cyc23 struct {
	X int32  `protobuf:"varint,1,opt"`
	U *Cyc22 `protobuf:"bytes,5,opt"`
}

type rej0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *rej1           `protobuf:"bytes,2,opt"`
	B []*rej1         `protobuf:"bytes,3,rep"`
	C map[int32]*rej1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type rej1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *rej2           `protobuf:"bytes,2,opt"`
	B []*rej2         `protobuf:"bytes,3,rep"`
	C map[int32]*rej2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type rej2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *rej3           `protobuf:"bytes,2,opt"`
	B []*rej3         `protobuf:"bytes,3,rep"`
	C map[int32]*rej3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type rej3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *rej4           `protobuf:"bytes,2,opt"`
	B []*rej4         `protobuf:"bytes,3,rep"`
	C map[int32]*rej4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type rej4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *rej5           `protobuf:"bytes,2,opt"`
	B []*rej5         `protobuf:"bytes,3,rep"`
	C map[int32]*rej5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type rej5 struct {
	X int32    `protobuf:"varint,1,opt"`
	Y chan int `protobuf:"varint,2,opt"`
}

type Rej0 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej1           `protobuf:"bytes,2,opt"`
	B []*Rej1         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej1 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej2           `protobuf:"bytes,2,opt"`
	B []*Rej2         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej2 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej3           `protobuf:"bytes,2,opt"`
	B []*Rej3         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej3 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej4           `protobuf:"bytes,2,opt"`
	B []*Rej4         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej4 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej4 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej5           `protobuf:"bytes,2,opt"`
	B []*Rej5         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej5 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej5 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej6           `protobuf:"bytes,2,opt"`
	B []*Rej6         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej6 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej6 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej7           `protobuf:"bytes,2,opt"`
	B []*Rej7         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej7 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej7 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej8           `protobuf:"bytes,2,opt"`
	B []*Rej8         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej8 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej8 struct {
	X int32           `protobuf:"varint,1,opt"`
	A *Rej9           `protobuf:"bytes,2,opt"`
	B []*Rej9         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej9 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej9 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej10           `protobuf:"bytes,2,opt"`
	B []*Rej10         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej10 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej10 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej11           `protobuf:"bytes,2,opt"`
	B []*Rej11         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej11 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej11 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej12           `protobuf:"bytes,2,opt"`
	B []*Rej12         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej12 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej12 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej13           `protobuf:"bytes,2,opt"`
	B []*Rej13         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej13 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej13 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej14           `protobuf:"bytes,2,opt"`
	B []*Rej14         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej14 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej14 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej15           `protobuf:"bytes,2,opt"`
	B []*Rej15         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej15 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej15 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej16           `protobuf:"bytes,2,opt"`
	B []*Rej16         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej16 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej16 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej17           `protobuf:"bytes,2,opt"`
	B []*Rej17         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej17 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej17 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej18           `protobuf:"bytes,2,opt"`
	B []*Rej18         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej18 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej18 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej19           `protobuf:"bytes,2,opt"`
	B []*Rej19         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej19 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej19 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej20           `protobuf:"bytes,2,opt"`
	B []*Rej20         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej20 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej20 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej21           `protobuf:"bytes,2,opt"`
	B []*Rej21         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej21 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej21 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej22           `protobuf:"bytes,2,opt"`
	B []*Rej22         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej22 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej22 struct {
	X int32            `protobuf:"varint,1,opt"`
	A *Rej23           `protobuf:"bytes,2,opt"`
	B []*Rej23         `protobuf:"bytes,3,rep"`
	C map[int32]*Rej23 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type Rej23 struct {
	X int32    `protobuf:"varint,1,opt"`
	Y chan int `protobuf:"varint,2,opt"`
}

// Wide holds pairs of message types: six levels, and 24.
var Wide = [][2]reflect.Type{
	{reflect.TypeOf(dia0{}), reflect.TypeOf(Dia0{})},
	{reflect.TypeOf(cyc0{}), reflect.TypeOf(Cyc0{})},
	{reflect.TypeOf(rej0{}), reflect.TypeOf(Rej0{})},
}

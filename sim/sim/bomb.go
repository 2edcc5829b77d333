package main

import (
	"fmt"
	"os"
	"reflect"

	"github.com/RomiChan/protobuf/verifsim/cat"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

func init() { commands["bomb"] = bombMain }

// bombMain decodes one deeply nested message, alone in its process.
func bombMain() {
	depth := int(flagInt("depth", 1000))
	num := map[string]uint32{"message": 2, "repeated": 4, "map": 5}[flagVal("shape", "message")]
	if num == 0 {
		fatal("shape")
	}
	var pre [][]byte
	n := 0
	add := func(b []byte) {
		pre = append(pre, b)
		n += len(b)
	}
	for i := 0; i < depth; i++ {
		if num == 5 {
			add(ref.AppendVarint([]byte{2<<3 | 2}, uint64(n)))
		}
		add(ref.AppendVarint([]byte{byte(num)<<3 | 2}, uint64(n)))
	}
	b := make([]byte, 0, n)
	for i := len(pre) - 1; i >= 0; i-- {
		b = append(b, pre[i]...)
	}
	resetWorld()
	v := reflect.New(reflect.TypeOf(cat.Node{}))
	r := doUnmarshal(b, v.Interface())
	if r.panicked != "" {
		fmt.Println("panic: " + r.panicked)
		os.Exit(1)
	}
	if r.err != nil {
		fmt.Println("error:", r.err)
		return
	}
	d := 0
	for x := v.Interface().(*cat.Node); x != nil; d++ {
		switch num {
		case 2:
			x = x.L
		case 4:
			if len(x.Kids) == 0 {
				x = nil
			} else {
				x = x.Kids[0]
			}
		case 5:
			x = x.M[""]
		}
	}
	if d != depth+1 {
		fmt.Printf("%d levels were sent, %d received\n", depth, d-1)
		os.Exit(1)
	}
}

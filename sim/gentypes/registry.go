// Package gentypes holds message types written by the code generator of the
// tree under test. Checks that use it replace this file and add others.
package gentypes

import "reflect"

// Type is one generated message type.
type Type struct {
	Set    int
	Name   string // full protobuf name
	Go     reflect.Type
	Fields map[int32]string // field number to Go field name
}

// Types lists the message types.
var Types []Type

// Sets holds an encoded FileDescriptorSet for each set of files.
var Sets []string

func reg(set int, name string, t reflect.Type, f map[int32]string) {
	Types = append(Types, Type{set, name, t, f})
}

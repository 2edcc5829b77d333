package main

import (
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"

	"github.com/RomiChan/protobuf/verifsim/gentypes"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// Standard descriptors: of generated types they are those of the proto files;
// of other types they are built from the reference model's view of the Go
// type.

var stdDescs = map[reflect.Type]protoreflect.MessageDescriptor{}

var pbType = map[ref.Kind]descriptorpb.FieldDescriptorProto_Type{
	ref.Bool: descriptorpb.FieldDescriptorProto_TYPE_BOOL, ref.Int32: descriptorpb.FieldDescriptorProto_TYPE_INT32, ref.Int64: descriptorpb.FieldDescriptorProto_TYPE_INT64,
	ref.Uint32: descriptorpb.FieldDescriptorProto_TYPE_UINT32, ref.Uint64: descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	ref.Sint32: descriptorpb.FieldDescriptorProto_TYPE_SINT32, ref.Sint64: descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	ref.Fixed32: descriptorpb.FieldDescriptorProto_TYPE_FIXED32, ref.Fixed64: descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	ref.Sfixed32: descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, ref.Sfixed64: descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
	ref.Float: descriptorpb.FieldDescriptorProto_TYPE_FLOAT, ref.Double: descriptorpb.FieldDescriptorProto_TYPE_DOUBLE,
	ref.String: descriptorpb.FieldDescriptorProto_TYPE_STRING, ref.Bytes: descriptorpb.FieldDescriptorProto_TYPE_BYTES,
	ref.Message: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

// stdDesc gives the standard descriptor of a Go type.
func stdDesc(t reflect.Type) protoreflect.MessageDescriptor {
	if d := stdDescs[t]; d != nil {
		return d
	}
	root := ref.Desc(t)
	names := map[*ref.Msg]string{}
	var order []*ref.Msg
	var walk func(m *ref.Msg)
	walk = func(m *ref.Msg) {
		if _, ok := names[m]; ok {
			return
		}
		names[m] = fmt.Sprintf("T%d", len(names))
		order = append(order, m)
		for _, f := range m.Fields {
			if f.Msg != nil {
				walk(f.Msg)
			}
		}
	}
	walk(root)
	fd := &descriptorpb.FileDescriptorProto{Name: proto.String("std.proto"), Package: proto.String("std"), Syntax: proto.String("proto3")}
	for _, m := range order {
		d := &descriptorpb.DescriptorProto{Name: proto.String(names[m])}
		var optional []*descriptorpb.FieldDescriptorProto
		for _, f := range m.Fields {
			x := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", f.Num)), Number: proto.Int32(int32(f.Num)),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			typed := func(y *descriptorpb.FieldDescriptorProto, k ref.Kind) {
				y.Type = pbType[k].Enum()
				if k == ref.Message {
					y.TypeName = proto.String(".std." + names[f.Msg])
				}
			}
			typed(x, f.Kind)
			switch f.Card {
			case ref.Repeated:
				x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				if f.Kind != ref.Message && f.Kind != ref.String && f.Kind != ref.Bytes {
					x.Options = &descriptorpb.FieldOptions{Packed: proto.Bool(false)}
				}
			case ref.Map:
				en := fmt.Sprintf("F%dEntry", f.Num)
				k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: pbType[f.Key].Enum()}
				v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
				typed(v, f.Kind)
				d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{k, v},
					Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
				x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				x.TypeName = proto.String(".std." + names[m] + "." + en)
			case ref.Option, ref.Pointer:
				optional = append(optional, x)
			default:
				if f.Kind == ref.Bytes {
					optional = append(optional, x)
				}
			}
			d.Field = append(d.Field, x)
		}
		for _, x := range optional {
			x.Proto3Optional = proto.Bool(true)
			x.OneofIndex = proto.Int32(int32(len(d.OneofDecl)))
			d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + x.GetName())})
		}
		fd.MessageType = append(fd.MessageType, d)
	}
	file, err := protodesc.NewFile(fd, nil)
	if err != nil {
		fatal("descriptor of %v: %v", t, err)
	}
	for i, m := range order {
		d := file.Messages().Get(i)
		if stdDescs[m.Type] == nil {
			stdDescs[m.Type] = d
		}
	}
	return stdDescs[t]
}

// ---- generated types ----

var genNames []string

// genProblem tells what is wrong with the generated types.
var genProblem string

var refKind = map[protoreflect.Kind]ref.Kind{
	protoreflect.BoolKind: ref.Bool, protoreflect.EnumKind: ref.Int32, protoreflect.Int32Kind: ref.Int32, protoreflect.Int64Kind: ref.Int64,
	protoreflect.Uint32Kind: ref.Uint32, protoreflect.Uint64Kind: ref.Uint64, protoreflect.Sint32Kind: ref.Sint32, protoreflect.Sint64Kind: ref.Sint64,
	protoreflect.Fixed32Kind: ref.Fixed32, protoreflect.Fixed64Kind: ref.Fixed64, protoreflect.Sfixed32Kind: ref.Sfixed32, protoreflect.Sfixed64Kind: ref.Sfixed64,
	protoreflect.FloatKind: ref.Float, protoreflect.DoubleKind: ref.Double, protoreflect.StringKind: ref.String, protoreflect.BytesKind: ref.Bytes,
	protoreflect.MessageKind: ref.Message,
}

func loadGenTypes() {
	var files []map[string]protoreflect.MessageDescriptor
	for i, s := range gentypes.Sets {
		set := new(descriptorpb.FileDescriptorSet)
		if err := proto.Unmarshal([]byte(s), set); err != nil {
			fatal("file set %d: %v", i, err)
		}
		fs, err := protodesc.NewFiles(set)
		if err != nil {
			fatal("file set %d: %v", i, err)
		}
		ms := map[string]protoreflect.MessageDescriptor{}
		var walk func(l protoreflect.MessageDescriptors)
		walk = func(l protoreflect.MessageDescriptors) {
			for k := 0; k < l.Len(); k++ {
				ms[string(l.Get(k).FullName())] = l.Get(k)
				walk(l.Get(k).Messages())
			}
		}
		fs.RangeFiles(func(f protoreflect.FileDescriptor) bool { walk(f.Messages()); return true })
		files = append(files, ms)
	}
	byGo := map[reflect.Type]*ref.Msg{}
	bySet := map[string]*ref.Msg{}
	key := func(set int, name string) string { return fmt.Sprintf("%d %s", set, name) }
	for i := range gentypes.Types {
		g := &gentypes.Types[i]
		m := &ref.Msg{Type: g.Go, ByNum: map[uint32]*ref.Field{}}
		byGo[g.Go] = m
		bySet[key(g.Set, g.Name)] = m
	}
	for i := range gentypes.Types {
		g := &gentypes.Types[i]
		m := byGo[g.Go]
		d := files[g.Set][g.Name]
		fs := d.Fields()
		for k := 0; k < fs.Len(); k++ {
			x := fs.Get(k)
			problem := func(f string, a ...interface{}) {
				if genProblem == "" {
					genProblem = fmt.Sprintf("generated type %v: field %s (%s): ", g.Go, x.Name(), x.Kind()) + fmt.Sprintf(f, a...)
				}
			}
			sf, ok := g.Go.FieldByName(g.Fields[int32(x.Number())])
			if !ok {
				problem("no Go field %s", g.Fields[int32(x.Number())])
				continue
			}
			f := &ref.Field{Num: uint32(x.Number()), Idx: sf.Index[0]}
			elem := x
			var want reflect.Type
			goType := func(e protoreflect.FieldDescriptor) reflect.Type {
				k := refKind[e.Kind()]
				if k != ref.Message {
					return ref.GoScalar(k)
				}
				mm := bySet[key(g.Set, string(e.Message().FullName()))]
				return reflect.PtrTo(mm.Type)
			}
			switch {
			case x.IsMap():
				elem = x.MapValue()
				f.Card = ref.Map
				f.Key = refKind[x.MapKey().Kind()]
				want = reflect.MapOf(goType(x.MapKey()), goType(elem))
			case x.IsList():
				f.Card = ref.Repeated
				want = reflect.SliceOf(goType(x))
			case x.HasPresence() && x.Kind() != protoreflect.MessageKind && x.Kind() != protoreflect.BytesKind:
				f.Card = ref.Option
				want = ref.OptionType(refKind[x.Kind()])
			default:
				want = goType(x)
			}
			f.Kind = refKind[elem.Kind()]
			if f.Kind == ref.Message {
				f.Msg = bySet[key(g.Set, string(elem.Message().FullName()))]
			}
			if f.Kind == ref.Bytes && f.Card == ref.Implicit && !x.HasPresence() {
				f.NoPresence = true
			}
			if sf.Type != want {
				problem("the Go type is %v, not %v", sf.Type, want)
				continue
			}
			m.Fields = append(m.Fields, f)
			m.ByNum[f.Num] = f
		}
		m.Sort()
		ref.SetDesc(m)
		stdDescs[g.Go] = d
		n := fmt.Sprintf("gen:%d:%s", g.Set, g.Name)
		ref.Catalog[n] = g.Go
		genNames = append(genNames, n)
	}
}

// ---- messages of the standard implementation ----

func scalarOf(k ref.Kind, v protoreflect.Value) ref.Scalar {
	x := reflect.New(ref.GoScalar(k)).Elem()
	switch y := v.Interface().(type) {
	case protoreflect.EnumNumber:
		x.SetInt(int64(y))
	default:
		x.Set(reflect.ValueOf(y).Convert(x.Type()))
	}
	return ref.Get(k, x)
}

func stdValue(k ref.Kind, s ref.Scalar, d protoreflect.FieldDescriptor) protoreflect.Value {
	x := reflect.New(ref.GoScalar(k)).Elem()
	ref.Set(k, x, s)
	if d.Kind() == protoreflect.EnumKind {
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(x.Int()))
	}
	return protoreflect.ValueOf(x.Interface())
}

// fromStd copies a message of the standard implementation to a Go struct.
func fromStd(dm protoreflect.Message, v reflect.Value, m *ref.Msg) error {
	if n := len(dm.GetUnknown()); n != 0 {
		return fmt.Errorf("%s has %d unknown bytes: %x", dm.Descriptor().FullName(), n, trunc(dm.GetUnknown(), 40))
	}
	var err error
	dm.Range(func(d protoreflect.FieldDescriptor, x protoreflect.Value) bool {
		f := m.ByNum[uint32(d.Number())]
		fv := v.Field(f.Idx)
		sub := func(y protoreflect.Value) reflect.Value {
			p := reflect.New(f.Msg.Type)
			if e := fromStd(y.Message(), p.Elem(), f.Msg); e != nil {
				err = e
			}
			return p
		}
		switch f.Card {
		case ref.Implicit:
			if f.Kind == ref.Message {
				fv.Set(sub(x))
			} else {
				ref.Set(f.Kind, fv, scalarOf(f.Kind, x))
			}
		case ref.Option:
			ref.OptSet(fv, f.Kind, scalarOf(f.Kind, x))
		case ref.Pointer:
			p := reflect.New(fv.Type().Elem())
			ref.Set(f.Kind, p.Elem(), scalarOf(f.Kind, x))
			fv.Set(p)
		case ref.Repeated:
			l := x.List()
			for i := 0; i < l.Len(); i++ {
				if f.Kind == ref.Message {
					fv.Set(reflect.Append(fv, sub(l.Get(i))))
					continue
				}
				e := reflect.New(fv.Type().Elem()).Elem()
				ref.Set(f.Kind, e, scalarOf(f.Kind, l.Get(i)))
				fv.Set(reflect.Append(fv, e))
			}
		case ref.Map:
			if fv.IsNil() {
				fv.Set(reflect.MakeMap(fv.Type()))
			}
			x.Map().Range(func(mk protoreflect.MapKey, y protoreflect.Value) bool {
				kv := reflect.New(fv.Type().Key()).Elem()
				ref.Set(f.Key, kv, scalarOf(f.Key, mk.Value()))
				vv := reflect.New(fv.Type().Elem()).Elem()
				if f.Kind == ref.Message {
					vv.Set(sub(y))
				} else {
					ref.Set(f.Kind, vv, scalarOf(f.Kind, y))
				}
				fv.SetMapIndex(kv, vv)
				return true
			})
		}
		return err == nil
	})
	return err
}

// toStd makes the standard implementation's message of a Go struct.
func toStd(v reflect.Value, m *ref.Msg, d protoreflect.MessageDescriptor) *dynamicpb.Message {
	dm := dynamicpb.NewMessage(d)
	for _, f := range m.Fields {
		fv := v.Field(f.Idx)
		x := d.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		switch f.Card {
		case ref.Implicit:
			switch {
			case f.Kind == ref.Message:
				if !fv.IsNil() {
					dm.Set(x, protoreflect.ValueOfMessage(toStd(fv.Elem(), f.Msg, x.Message())))
				}
			case f.Kind == ref.Bytes && fv.IsNil():
			default:
				dm.Set(x, stdValue(f.Kind, ref.Get(f.Kind, fv), x))
			}
		case ref.Option:
			if ok, ov := ref.OptGet(fv); ok {
				dm.Set(x, stdValue(f.Kind, ref.Get(f.Kind, ov), x))
			}
		case ref.Pointer:
			if !fv.IsNil() {
				dm.Set(x, stdValue(f.Kind, ref.Get(f.Kind, fv.Elem()), x))
			}
		case ref.Repeated:
			if fv.Len() == 0 {
				continue
			}
			l := dm.Mutable(x).List()
			for i := 0; i < fv.Len(); i++ {
				if f.Kind == ref.Message {
					l.Append(protoreflect.ValueOfMessage(toStd(fv.Index(i).Elem(), f.Msg, x.Message())))
				} else {
					l.Append(stdValue(f.Kind, ref.Get(f.Kind, fv.Index(i)), x))
				}
			}
		case ref.Map:
			if fv.Len() == 0 {
				continue
			}
			mm := dm.Mutable(x).Map()
			for _, k := range sortedKeys(fv, f) {
				mk := stdValue(f.Key, ref.Get(f.Key, k), x.MapKey()).MapKey()
				e := reflect.New(fv.Type().Elem()).Elem()
				e.Set(fv.MapIndex(k))
				if f.Kind == ref.Message {
					s := dynamicpb.NewMessage(x.MapValue().Message())
					if !e.IsNil() {
						s = toStd(e.Elem(), f.Msg, x.MapValue().Message())
					}
					mm.Set(mk, protoreflect.ValueOfMessage(s))
				} else {
					mm.Set(mk, stdValue(f.Kind, ref.Get(f.Kind, e), x.MapValue()))
				}
			}
		}
	}
	return dm
}

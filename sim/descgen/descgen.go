// Package descgen draws proto files.
package descgen

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// Rand is the source of choices.
type Rand interface {
	Intn(n int) int
	P(k int) bool
}

// Opts shape the files.
type Opts struct {
	Files   int
	Msgs    int    // top-level messages per file
	Prefix  string // of Go import paths
	Full    bool   // also what the runtime does not support: oneofs, groups, extensions, odd names, comments
	OnePkg  bool
	NameTag string
}

type gen struct {
	r     Rand
	o     *Opts
	files []*descriptorpb.FileDescriptorProto
	// types known so far, by file
	msgs  [][]string
	enums [][]string
	vals  map[string]string // a value of each enum
	// packages whose import would close a cycle
	reach      []map[int]bool
	pkgs       []string // Go packages so far
	dep, share int      // per mille: a file imports another, shares the Go package of the one before
	same       bool     // files of different packages have the same names
	wide       int      // what there is a lot of
	fav        int      // per mille: messages and enums of the first file are preferred, the same ones in all files
}

type scope struct {
	g    *gen
	file int
	fd   *descriptorpb.FileDescriptorProto
	p3   bool
	mine []string
	ext  []string // messages of this file with an extension range
}

var words = []string{"name", "id", "user_data", "x", "y2", "flags", "uin", "msg", "Body", "camelCase", "UPPER", "seq_no", "a_b_c", "time", "key", "val", "group_id", "sig_1", "buf", "n"}
var odd = []string{"type", "func", "string", "range", "map", "reset", "String", "proto_message", "Descriptor", "get_name", "__x", "x__", "_9", "a__b", "interface", "marshal"}

func s(x string) *string { return &x }

func pick(r Rand, v ...string) string { return v[r.Intn(len(v))] }

// Files draws a set of files in an order in which each follows its imports.
func Files(r Rand, o *Opts) []*descriptorpb.FileDescriptorProto {
	g := &gen{r: r, o: o, vals: map[string]string{}}
	g.dep, g.share = 500, 300
	if o.Files > 2 && r.P(500) { // files that use the same things
		g.fav, g.dep, g.share = 300+r.Intn(600), 950, 700
	}
	g.same = o.Full && r.P(200)
	if o.Full && r.P(70) {
		g.wide = 1 + r.Intn(wides-1)
	}
	n := o.Files
	if g.wide == wideFiles {
		n = 6 + r.Intn(15)
	}
	for i := 0; i < n; i++ {
		g.file(i)
	}
	return g.files
}

// what there may be a lot of in a schema
const (
	_ = iota
	wideEnums
	wideMsgs
	wideOneofs
	wideNesting
	wideFiles
	wideFields
	wideNames
	wides
)

func (g *gen) file(i int) {
	r := g.r
	fd := &descriptorpb.FileDescriptorProto{}
	sc := &scope{g: g, file: i, fd: fd, p3: r.P(600)}
	dir := ""
	if g.o.Full && r.P(400) {
		dir = pick(r, "d", "sub/dir", "a-b") + "/"
	}
	fd.Name = s(fmt.Sprintf("%s%sf%d.proto", dir, g.o.NameTag, i))
	if g.o.Full && r.P(50) {
		fd.Name = s(fmt.Sprintf("%s%s%s%d.proto", dir, g.o.NameTag, pick(r, "File", "x.y", "UPPER_", "my-file", "v1.", "proto"), i))
	}
	if sc.p3 {
		fd.Syntax = s("proto3")
	} else if r.P(500) {
		fd.Syntax = s("proto2")
	}
	// some files share the Go package of the file before them
	pk := len(g.pkgs)
	if pk > 0 && (g.o.OnePkg || i > 1 && r.P(g.share)) {
		pk--
	}
	fd.Package = s(fmt.Sprintf("%sp%d", g.o.NameTag, pk))
	if g.o.Full && r.P(200) {
		fd.Package = s(fmt.Sprintf("%sp%d.v%d", g.o.NameTag, pk, r.Intn(3)))
	}
	fd.Options = &descriptorpb.FileOptions{GoPackage: s(fmt.Sprintf("%s/%sg%d;g%d", g.o.Prefix, g.o.NameTag, pk, pk))}
	if g.o.Full && r.P(300) { // package names that something else in the code may have; with a path of its own
		n := pick(r, "x", "x", "x", "m", "ok", "proto", "string", "math", "protobuf")
		if !g.o.OnePkg {
			fd.Options.GoPackage = s(fmt.Sprintf("%s/%s%s%d;%s", g.o.Prefix, g.o.NameTag, n, i, n))
			if r.P(300) {
				fd.Options.GoPackage = s(fmt.Sprintf("%s/%s%d/%s", g.o.Prefix, g.o.NameTag, i, n))
			}
		}
	}
	fresh := pk == len(g.pkgs)
	if !fresh {
		fd.Options.GoPackage = s(g.pkgs[pk])
	} else {
		g.pkgs = append(g.pkgs, fd.Options.GetGoPackage())
	}
	if g.o.Full && r.P(100) {
		fd.Options.Deprecated = proto.Bool(true)
	}
	g.msgs = append(g.msgs, nil)
	g.enums = append(g.enums, nil)
	for j := 0; j < i; j++ {
		if r.P(g.dep) {
			fd.Dependency = append(fd.Dependency, g.files[j].GetName())
			if g.o.Full && r.P(300) {
				fd.PublicDependency = append(fd.PublicDependency, int32(len(fd.Dependency)-1))
			}
		}
	}
	g.files = append(g.files, fd)
	ix := i // of the names, which then are different in all files
	if g.same && fresh {
		ix = 0
	}

	for k := r.Intn(3); k > 0; k-- {
		fd.EnumType = append(fd.EnumType, sc.enum("."+fd.GetPackage(), fmt.Sprintf("E%d_%d", ix, k)))
	}
	// names first, so that messages can refer to later ones
	var names []string
	msgs, depth := g.o.Msgs, 2
	switch {
	case g.wide == wideMsgs && i < 2:
		msgs = 12 + r.Intn(30)
	case g.wide == wideNesting && i < 2:
		msgs, depth = 1+r.Intn(2), 4+r.Intn(4)
	case g.wide == wideFiles && msgs > 2:
		msgs = 2
	}
	for k := 0; k < msgs; k++ {
		n := fmt.Sprintf("M%d_%d", ix, k)
		if g.o.Full && r.P(200) {
			n = fmt.Sprintf("%s%d_%d", pick(r, "msg_lower", "Type", "X_y"), ix, k)
		}
		names = append(names, n)
		sc.mine = append(sc.mine, "."+fd.GetPackage()+"."+n)
	}
	for _, n := range names {
		fd.MessageType = append(fd.MessageType, sc.message("."+fd.GetPackage(), n, depth))
	}
	g.msgs[i] = append(g.msgs[i], sc.mine...)
	if g.o.Full && !sc.p3 && len(sc.ext) > 0 {
		for k := r.Intn(3); k > 0; k-- {
			e := sc.field(fmt.Sprintf("ext%d_%d", i, k), int32(100+k), false)
			e.Extendee = s(sc.ext[r.Intn(len(sc.ext))])
			if e.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REQUIRED {
				e.Label = descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
			}
			fd.Extension = append(fd.Extension, e)
		}
	}
	if g.o.Full && r.P(600) {
		sc.comments()
	}
}

func (sc *scope) enum(prefix, name string) *descriptorpb.EnumDescriptorProto {
	r := sc.g.r
	e := &descriptorpb.EnumDescriptorProto{Name: s(name)}
	if sc.g.o.Full && sc.g.r.P(60) {
		e.Options = &descriptorpb.EnumOptions{Deprecated: proto.Bool(true)}
	}
	n := 1 + r.Intn(4)
	if sc.g.wide == wideEnums && r.P(400) {
		n = 5 + r.Intn([]int{8, 40, 300}[r.Intn(3)])
	}
	for i := 0; i < n; i++ {
		v := int32(i)
		if sc.g.o.Full && i == 0 && !sc.p3 && r.P(400) {
			v = int32(r.Intn(9)) - 3
		}
		if i > 0 && !sc.p3 && r.P(100) {
			v = 0
		}
		if i > 0 && r.P(300) {
			v = int32(r.Intn(1<<31)) - 1<<30
			for j := 0; j < i; j++ {
				if e.Value[j].GetNumber() == v {
					v = int32(1<<30 + i)
				}
			}
		}
		e.Value = append(e.Value, &descriptorpb.EnumValueDescriptorProto{Name: s(fmt.Sprintf("%s_V%d", name, i)), Number: &v})
		if sc.g.o.Full && r.P(60) {
			e.Value[i].Options = &descriptorpb.EnumValueOptions{Deprecated: proto.Bool(true)}
		}
	}
	// distinct numbers
	seen := map[int32]bool{}
	for _, v := range e.Value {
		for seen[v.GetNumber()] {
			*v.Number++
		}
		seen[v.GetNumber()] = true
	}
	if sc.g.o.Full && r.P(100) { // a second name for a number
		if e.Options == nil {
			e.Options = &descriptorpb.EnumOptions{}
		}
		e.Options.AllowAlias = proto.Bool(true)
		e.Value = append(e.Value, &descriptorpb.EnumValueDescriptorProto{Name: s(name + "_ALIAS"), Number: proto.Int32(e.Value[r.Intn(n)].GetNumber())})
	}
	full := prefix + "." + name
	sc.g.enums[sc.file] = append(sc.g.enums[sc.file], full)
	sc.g.vals[full] = e.Value[r.Intn(n)].GetName()
	return e
}

var kinds = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_BOOL, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_INT64,
	descriptorpb.FieldDescriptorProto_TYPE_UINT32, descriptorpb.FieldDescriptorProto_TYPE_UINT64, descriptorpb.FieldDescriptorProto_TYPE_SINT32,
	descriptorpb.FieldDescriptorProto_TYPE_SINT64, descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES,
}

// visible lists the files whose types this one may use.
func (sc *scope) visible() []int {
	o := []int{sc.file}
	var pub func(f int)
	have := map[int]bool{sc.file: true}
	index := func(n string) int {
		for i, f := range sc.g.files {
			if f.GetName() == n {
				return i
			}
		}
		return 0
	}
	pub = func(f int) {
		if have[f] {
			return
		}
		have[f] = true
		o = append(o, f)
		for _, k := range sc.g.files[f].PublicDependency {
			pub(index(sc.g.files[f].Dependency[k]))
		}
	}
	for _, d := range sc.fd.Dependency {
		pub(index(d))
	}
	return o
}

func has(vs []int, x int) bool {
	for _, v := range vs {
		if v == x {
			return true
		}
	}
	return false
}

func (sc *scope) someMsg() string {
	r := sc.g.r
	vs := sc.visible()
	if sc.file > 0 && r.P(sc.g.fav) {
		if m := sc.g.msgs[0]; len(m) > 0 && has(vs, 0) {
			return m[r.Intn(r.Intn(len(m))+1)]
		}
	}
	if r.P(350) {
		f := vs[r.Intn(len(vs))]
		if m := sc.g.msgs[f]; len(m) > 0 {
			return m[r.Intn(len(m))]
		}
	}
	if len(sc.mine) == 0 {
		return ""
	}
	return sc.mine[r.Intn(len(sc.mine))]
}

func (sc *scope) someEnum(p3only bool) string {
	r := sc.g.r
	vs := sc.visible()
	f := vs[r.Intn(len(vs))]
	if r.P(sc.g.fav) && has(vs, 0) {
		f = 0
	}
	if p3only && sc.g.files[f].GetSyntax() != "proto3" {
		f = sc.file
	}
	if e := sc.g.enums[f]; len(e) > 0 {
		return e[r.Intn(len(e))]
	}
	return ""
}

// field draws a field that is no map.
func (sc *scope) field(name string, num int32, inOneof bool) *descriptorpb.FieldDescriptorProto {
	r := sc.g.r
	f := &descriptorpb.FieldDescriptorProto{Name: s(name), Number: &num}
	f.Label = descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	f.Type = kinds[r.Intn(len(kinds))].Enum()
	switch r.Intn(7) {
	case 0, 1:
		if m := sc.someMsg(); m != "" {
			f.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			f.TypeName = s(m)
		}
	case 2:
		if e := sc.someEnum(sc.p3); e != "" {
			f.Type = descriptorpb.FieldDescriptorProto_TYPE_ENUM.Enum()
			f.TypeName = s(e)
		}
	}
	if inOneof {
		return f
	}
	switch x := r.Intn(10); {
	case x < 3:
		f.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
		if sc.p3 && f.GetTypeName() == "" && f.GetType() != descriptorpb.FieldDescriptorProto_TYPE_STRING && f.GetType() != descriptorpb.FieldDescriptorProto_TYPE_BYTES ||
			sc.p3 && f.GetType() == descriptorpb.FieldDescriptorProto_TYPE_ENUM {
			if !sc.g.o.Full || r.P(500) {
				f.Options = &descriptorpb.FieldOptions{Packed: proto.Bool(false)}
			}
		}
	case x == 3 && !sc.p3:
		f.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
	}
	if sc.g.o.Full && r.P(60) {
		if f.Options == nil {
			f.Options = &descriptorpb.FieldOptions{}
		}
		f.Options.Deprecated = proto.Bool(true)
	}
	if !sc.p3 && f.GetLabel() != descriptorpb.FieldDescriptorProto_LABEL_REPEATED && r.P(200) {
		switch f.GetType() {
		case descriptorpb.FieldDescriptorProto_TYPE_BOOL:
			f.DefaultValue = s("true")
		case descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES:
			f.DefaultValue = s("text")
		case descriptorpb.FieldDescriptorProto_TYPE_ENUM:
			f.DefaultValue = s(sc.g.vals[f.GetTypeName()])
		case descriptorpb.FieldDescriptorProto_TYPE_MESSAGE:
		default:
			f.DefaultValue = s("7")
		}
	}
	return f
}

func mapName(field string) string {
	o := []byte{}
	up := true
	for _, c := range []byte(field) {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		o = append(o, c)
	}
	return string(o) + "Entry"
}

func (sc *scope) message(prefix, name string, depth int) *descriptorpb.DescriptorProto {
	r := sc.g.r
	m := &descriptorpb.DescriptorProto{Name: s(name)}
	full := prefix + "." + name
	if sc.g.o.Full && !sc.p3 && r.P(300) {
		m.ExtensionRange = []*descriptorpb.DescriptorProto_ExtensionRange{{Start: proto.Int32(100), End: proto.Int32(200)}}
		sc.ext = append(sc.ext, full)
	}
	if sc.g.o.Full && r.P(60) {
		m.Options = &descriptorpb.MessageOptions{Deprecated: proto.Bool(true)}
	}
	if sc.g.o.Full && r.P(40) { // options that the plugin does not know; one asks for field tracking
		o := &descriptorpb.MessageOptions{}
		raw := []byte{0xd2, 0xd0, 0x04, 0x02, 'h', 'i'}
		if r.P(500) {
			raw = protowire.AppendVarint(protowire.AppendTag(raw, 37383685, protowire.VarintType), uint64(r.Intn(2)))
		}
		o.ProtoReflect().SetUnknown(raw)
		m.Options = o
	}
	if depth > 0 {
		k := r.Intn(3)
		if sc.g.wide == wideNesting && k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			if r.P(600) || sc.g.wide == wideNesting && k == 1 {
				n := fmt.Sprintf("N%d", k)
				if sc.g.o.Full && r.P(100) {
					n = []string{"x", "X", "Name"}[k%3] // a wrapper type may want that name
				}
				sc.mine = append(sc.mine, full+"."+n)
				m.NestedType = append(m.NestedType, sc.message(full, n, depth-1))
			} else {
				m.EnumType = append(m.EnumType, sc.enum(full, fmt.Sprintf("E%d", k)))
			}
		}
	}
	n := r.Intn(9)
	if r.P(40) {
		n = 40
	}
	many := 0 // fields that go on with the same oneof
	switch {
	case sc.g.wide == wideFields && depth > 0 && r.P(200):
		n = 60 + r.Intn(200)
	case sc.g.wide == wideOneofs && depth > 0 && r.P(400):
		n = 10 + r.Intn(40)
		many = 950
	}
	taken := map[string]bool{}
	used := map[int32]bool{}
	num := func() int32 {
		for {
			x := int32(1 + r.Intn(2*n+3))
			switch r.Intn(12) {
			case 0:
				x = []int32{15, 16, 2047, 2048, 1 << 18, 1<<29 - 1, 18999, 20000, 1 << 25}[r.Intn(9)]
			}
			if !used[x] && (x < 100 || x >= 200) {
				used[x] = true
				return x
			}
		}
	}
	oneof := -1
	var optional []*descriptorpb.FieldDescriptorProto
	for i := 0; i < n; i++ {
		fn := fmt.Sprintf("%s_%d", pick(r, words...), i)
		if sc.g.o.Full && r.P(150) {
			fn = fmt.Sprintf("%s%d", pick(r, odd...), i)
			if fn[0] == '_' {
				fn = "u" + fn
			}
		}
		if sc.g.wide == wideNames && r.P(300) { // long ones
			fn = fmt.Sprintf("%s_%s_%s_%s_%s_%d", pick(r, words...), pick(r, words...), pick(r, words...), pick(r, words...), pick(r, words...), i)
		}
		if sc.g.o.Full && r.P(90) { // names that collide in Go
			if x := pick(r, "name", "get_name", "Name", "GetName", "getName", "x", "get_x", "X", "_x", "choice", "get_choice", "n0", "Reset", "value"); !taken[x] {
				fn = x
			}
		}
		taken[fn] = true
		if sc.g.o.Full && oneof >= 0 && (r.P(600) || many > 0 && r.P(many)) || sc.g.o.Full && r.P(80) {
			if oneof < 0 || r.P(200) && !r.P(many) {
				oneof = len(m.OneofDecl)
				on := fmt.Sprintf("choice_%d", i)
				if x := pick(r, "choice", "x", "name", "get_name", "Name", "n1"); r.P(300) && !taken[x] {
					on = x
				}
				taken[on] = true
				m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: s(on)})
			}
			f := sc.field(fn, num(), true)
			f.OneofIndex = proto.Int32(int32(oneof))
			m.Field = append(m.Field, f)
			continue
		}
		oneof = -1
		if r.P(220) { // a map
			kt := kinds[r.Intn(11)]
			if r.P(300) {
				kt = descriptorpb.FieldDescriptorProto_TYPE_STRING
			}
			fn = fmt.Sprintf("%s%d", pick(r, "table", "by_key", "m"), i)
			en := mapName(fn)
			val := sc.field("value", 2, true)
			key := &descriptorpb.FieldDescriptorProto{Name: s("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: kt.Enum()}
			m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{Name: s(en), Field: []*descriptorpb.FieldDescriptorProto{key, val},
				Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
			m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: s(fn), Number: proto.Int32(num()),
				Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: s(full + "." + en)})
			continue
		}
		if sc.g.o.Full && !sc.p3 && r.P(60) { // a group
			gn := fmt.Sprintf("Grp%d", i)
			m.NestedType = append(m.NestedType, sc.message(full, gn, 0))
			m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: s(fmt.Sprintf("grp%d", i)), Number: proto.Int32(num()),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_GROUP.Enum(), TypeName: s(full + "." + gn)})
			continue
		}
		f := sc.field(fn, num(), false)
		if sc.p3 && f.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL && r.P(400) {
			f.Proto3Optional = proto.Bool(true)
			optional = append(optional, f)
		}
		m.Field = append(m.Field, f)
	}
	for _, f := range optional { // their oneofs come last
		f.OneofIndex = proto.Int32(int32(len(m.OneofDecl)))
		m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: s("_" + f.GetName())})
	}
	return m
}

// comments attaches comments to some declarations.
func (sc *scope) comments() {
	r := sc.g.r
	info := &descriptorpb.SourceCodeInfo{}
	add := func(path ...int32) {
		if !r.P(400) {
			return
		}
		l := &descriptorpb.SourceCodeInfo_Location{Path: append([]int32(nil), path...), Span: []int32{int32(len(info.Location)), 0, 9}}
		if r.P(700) {
			l.LeadingComments = s(pick(r, " a comment\n", " two\n lines\n", "*/ odd `quotes`\n", " Deprecated: really\n",
				" one\n\n after a blank line\n", " a list\n - first\n - second\n", "    indented\n", " tabs\tand // slashes /* both */\n", " größer ünd 漢字\n",
				" no newline at the end", "x\n", fmt.Sprintf(" number %d of them\n", len(info.Location)), strings.Repeat(" many words", 40)+"\n"))
		}
		if r.P(300) {
			l.TrailingComments = s(pick(r, " behind\n", " behind\n twice\n", fmt.Sprintf(" trailing %d\n", len(info.Location)), " `odd` \"one\" // here\n", " no newline"))
		}
		if r.P(200) {
			l.LeadingDetachedComments = []string{" detached\n", " again\n"}
		}
		info.Location = append(info.Location, l)
	}
	add(12)
	var walk func(m *descriptorpb.DescriptorProto, path []int32)
	walk = func(m *descriptorpb.DescriptorProto, path []int32) {
		add(path...)
		for i := range m.Field {
			add(append(append([]int32(nil), path...), 2, int32(i))...)
		}
		for i := range m.OneofDecl {
			add(append(append([]int32(nil), path...), 8, int32(i))...)
		}
		for i, n := range m.NestedType {
			walk(n, append(append([]int32(nil), path...), 3, int32(i)))
		}
		for i, e := range m.EnumType {
			add(append(append([]int32(nil), path...), 4, int32(i))...)
			for j := range e.Value {
				add(append(append([]int32(nil), path...), 4, int32(i), 2, int32(j))...)
			}
		}
	}
	for i, m := range sc.fd.MessageType {
		walk(m, []int32{4, int32(i)})
	}
	for i, e := range sc.fd.EnumType {
		add(5, int32(i))
		for j := range e.Value {
			add(5, int32(i), 2, int32(j))
		}
	}
	sc.fd.SourceCodeInfo = info
}

// Rng is a generator of its own (splitmix64).
type Rng struct{ x uint64 }

// NewRng returns a generator.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Intn returns a number below n.
func (r *Rng) Intn(n int) int {
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	z ^= z >> 31
	if n <= 1 {
		return 0
	}
	return int((z >> 11) % uint64(n))
}

// P is true with a probability of k/1000.
func (r *Rng) P(k int) bool { return r.Intn(1000) < k }

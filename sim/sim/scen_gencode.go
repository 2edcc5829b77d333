package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"google.golang.org/protobuf/compiler/protogen"
	stdproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/verifsim/ref"
)

// C18: the code that the plugin writes is compiled (by go/types, against the
// working tree's package proto) and every declaration in it is compared with
// a model of what the schema asks for.

const protoPath = "github.com/RomiChan/protobuf/proto"

func genCode(r *ref.Rng, p *Plan) {
	req := randRequest(r, "t")
	req.FileToGenerate = nil
	for _, f := range req.ProtoFile {
		req.FileToGenerate = append(req.FileToGenerate, f.GetName())
	}
	p.Vals = []Val{{T: 0, B: marshalStd(req)}}
	for i := r.Pick(1, 1, 2); i > 0; i-- {
		o := Op{K: "generate", A: []int64{int64(r.U64() >> 2), int64(r.Intn(1 << 32)), int64(r.U64() >> 2)}}
		for k := r.Pick(0, 0, 1, 3, 20); k > 0; k-- {
			o.A = append(o.A, int64(1+r.Intn(r.Pick(3, 600, 5000))))
		}
		p.Ops = append(p.Ops, o)
	}
	if bytes.Contains(p.Vals[0].B, []byte("choice")) && r.P(120) || r.P(15) {
		p.Ops[0].K = "execute"
	}
}

// protoScope is the working tree's package proto, as far as its declarations
// go.
var protoScope *types.Package

func protoPackage() *types.Package {
	fset := token.NewFileSet()
	if protoScope != nil {
		return protoScope
	}
	dir := os.Getenv("VERIF_PROTOSRC")
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		fatal("package proto in %q: %v", dir, err)
	}
	var files []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			fatal("package proto: %v", err)
		}
		files = append(files, f)
	}
	// what its own imports declare is not known, nor needed
	conf := types.Config{IgnoreFuncBodies: true, Error: func(error) {}, Importer: noImports{}}
	protoScope, _ = conf.Check(protoPath, fset, files, nil)
	if protoScope == nil {
		fatal("package proto has no declarations")
	}
	return protoScope
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, errors.New("not needed")
}

// compiler type-checks the packages of an answer.
type compiler struct {
	fset  *token.FileSet
	files map[string][]*ast.File // by import path
	done  map[string]*types.Package
	busy  map[string]bool
	order []string // imports first
	std   types.Importer
}

func (c *compiler) Import(path string) (*types.Package, error) {
	if p := c.done[path]; p != nil {
		return p, nil
	}
	switch {
	case path == "unsafe":
		return types.Unsafe, nil
	case path == protoPath:
		return protoPackage(), nil
	case c.files[path] == nil:
		if first := strings.Split(path, "/")[0]; strings.Contains(first, ".") {
			return nil, fmt.Errorf("there is no package %q", path)
		}
		if c.std == nil {
			c.std = importer.ForCompiler(c.fset, "source", nil)
		}
		return c.std.Import(path)
	case c.busy[path]:
		return nil, fmt.Errorf("import cycle through %q", path)
	}
	c.busy[path] = true
	var first error
	conf := types.Config{Importer: c, GoVersion: "go1.18", Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	p, _ := conf.Check(path, c.fset, c.files[path], nil)
	c.busy[path] = false
	if first != nil {
		return nil, first
	}
	c.done[path] = p
	c.order = append(c.order, path)
	return p, nil
}

var goBasic = map[protoreflect.Kind]types.BasicKind{
	protoreflect.BoolKind: types.Bool, protoreflect.EnumKind: types.Int32,
	protoreflect.Int32Kind: types.Int32, protoreflect.Sint32Kind: types.Int32, protoreflect.Sfixed32Kind: types.Int32,
	protoreflect.Int64Kind: types.Int64, protoreflect.Sint64Kind: types.Int64, protoreflect.Sfixed64Kind: types.Int64,
	protoreflect.Uint32Kind: types.Uint32, protoreflect.Fixed32Kind: types.Uint32,
	protoreflect.Uint64Kind: types.Uint64, protoreflect.Fixed64Kind: types.Uint64,
	protoreflect.FloatKind: types.Float32, protoreflect.DoubleKind: types.Float64, protoreflect.StringKind: types.String,
}

var wireOf = map[protoreflect.Kind]string{
	protoreflect.BoolKind: "varint", protoreflect.EnumKind: "varint", protoreflect.Int32Kind: "varint", protoreflect.Int64Kind: "varint",
	protoreflect.Uint32Kind: "varint", protoreflect.Uint64Kind: "varint", protoreflect.Sint32Kind: "zigzag32", protoreflect.Sint64Kind: "zigzag64",
	protoreflect.Fixed32Kind: "fixed32", protoreflect.Sfixed32Kind: "fixed32", protoreflect.FloatKind: "fixed32",
	protoreflect.Fixed64Kind: "fixed64", protoreflect.Sfixed64Kind: "fixed64", protoreflect.DoubleKind: "fixed64",
	protoreflect.StringKind: "bytes", protoreflect.BytesKind: "bytes", protoreflect.MessageKind: "bytes",
}

// schema compares the declarations of compiled packages with the schema.
type schema struct {
	st  *Stats
	c   *compiler
	vio *Violation
	// of all oneofs of all files
	choices []*protogen.Field
	// docs are the comments of the declarations, by import path and name
	docs map[string]doc
}

// doc is what the comments at a declaration say: as words, because the Go
// formatter may lay them out differently.
type doc struct{ before, behind string }

// words leaves letters and digits only, and a space between the words.
func words(s string) string {
	return " " + strings.Join(strings.FieldsFunc(s, func(c rune) bool { return !unicode.IsLetter(c) && !unicode.IsNumber(c) }), " ") + " "
}

func groupWords(gs ...*ast.CommentGroup) string {
	var t strings.Builder
	for _, g := range gs {
		if g != nil {
			for _, c := range g.List {
				t.WriteString(c.Text + "\n")
			}
		}
	}
	return words(t.String())
}

// readDocs collects the comments of a file of package path.
func (s *schema) readDocs(path string, f *ast.File) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range g.Specs {
			switch sp := sp.(type) {
			case *ast.TypeSpec:
				name := path + "." + sp.Name.Name
				own := []*ast.CommentGroup{sp.Doc}
				if len(g.Specs) == 1 {
					own = append(own, g.Doc)
				}
				s.docs[name] = doc{groupWords(own...), groupWords(sp.Comment)}
				if t, ok := sp.Type.(*ast.StructType); ok {
					for _, x := range t.Fields.List {
						for _, n := range x.Names {
							s.docs[name+"."+n.Name] = doc{groupWords(x.Doc), groupWords(x.Comment)}
						}
					}
				}
			case *ast.ValueSpec:
				own := []*ast.CommentGroup{sp.Doc}
				if len(g.Specs) == 1 {
					own = append(own, g.Doc)
				}
				for _, n := range sp.Names {
					s.docs[path+"."+n.Name] = doc{groupWords(own...), groupWords(sp.Comment)}
				}
			}
		}
	}
}

// commented compares the comments at a declaration with those of the schema.
func (s *schema) commented(what string, id protogen.GoIdent, field string, c protogen.CommentSet, deprecated, trailing bool) {
	name := string(id.GoImportPath) + "." + id.GoName
	if field != "" {
		name += "." + field
	}
	d, ok := s.docs[name]
	if !ok {
		return
	}
	if w := words(string(c.Leading)); w != "  " {
		s.st.add("comments", 1)
		if !strings.Contains(d.before, w) {
			s.fail("%s: its comment %q is not at the declaration of %s", what, string(c.Leading), name)
		}
	}
	if t := strings.TrimSuffix(string(c.Trailing), "\n"); trailing && t != "" && !strings.Contains(t, "\n") {
		s.st.add("comments", 1)
		if !strings.Contains(d.behind, words(t)) {
			s.fail("%s: the comment %q is not behind the declaration of %s", what, t, name)
		}
	}
	marked := strings.Contains(d.before, " Deprecated ")
	if deprecated {
		s.st.add("deprecations", 1)
	}
	if deprecated && !marked || marked && !deprecated && !strings.Contains(words(string(c.Leading)), " Deprecated ") {
		s.fail("%s: deprecated is %v in the schema, and %v at the declaration of %s", what, deprecated, marked, name)
	}
}

var generatedLine = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

func (s *schema) fail(f string, a ...interface{}) {
	if s.vio == nil {
		s.vio = violf("declaration", f, a...)
	}
}

func (s *schema) lookup(id protogen.GoIdent) types.Object {
	p := s.c.done[string(id.GoImportPath)]
	if p == nil {
		return nil
	}
	return p.Scope().Lookup(id.GoName)
}

func (s *schema) single(f *protogen.Field) types.Type {
	switch f.Desc.Kind() {
	case protoreflect.BytesKind:
		return types.NewSlice(types.Typ[types.Byte])
	case protoreflect.MessageKind, protoreflect.GroupKind:
		o := s.lookup(f.Message.GoIdent)
		if o == nil {
			s.fail("message %s: no Go type %s", f.Message.Desc.FullName(), f.Message.GoIdent.GoName)
			return nil
		}
		return types.NewPointer(o.Type())
	}
	return types.Typ[goBasic[f.Desc.Kind()]]
}

// fieldType is the Go type that a field has to have; bare: inside of a oneof.
func (s *schema) fieldType(f *protogen.Field, bare bool) types.Type {
	switch {
	case f.Desc.IsMap():
		k, v := s.single(f.Message.Fields[0]), s.single(f.Message.Fields[1])
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	case f.Desc.IsList():
		if t := s.single(f); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	t := s.single(f)
	if t == nil || bare || !f.Desc.HasPresence() {
		return t
	}
	switch f.Desc.Kind() {
	case protoreflect.BytesKind, protoreflect.MessageKind, protoreflect.GroupKind:
		return t
	}
	o := protoPackage().Scope().Lookup("Option")
	if o == nil {
		fatal("package proto has no Option")
	}
	t, err := types.Instantiate(nil, o.Type(), []types.Type{t}, false)
	if err != nil {
		fatal("Option: %v", err)
	}
	return t
}

func (s *schema) tag(what, tag string, key string, f *protogen.Field) {
	if f.Desc.Kind() == protoreflect.GroupKind {
		return
	}
	x := strings.Split(reflect.StructTag(tag).Get(key), ",")
	if len(x) < 3 {
		s.fail("%s: the tag %q has no %s", what, tag, key)
		return
	}
	card := map[protoreflect.Cardinality]string{protoreflect.Repeated: "rep", protoreflect.Required: "req", protoreflect.Optional: "opt"}[f.Desc.Cardinality()]
	if x[0] != wireOf[f.Desc.Kind()] || x[1] != strconv.Itoa(int(f.Desc.Number())) || x[2] != card {
		s.fail("%s (%s, number %d): the tag %s is %q", what, f.Desc.Kind(), f.Desc.Number(), key, strings.Join(x, ","))
	}
}

func structOf(o types.Object) *types.Struct {
	if o == nil {
		return nil
	}
	t, _ := o.Type().Underlying().(*types.Struct)
	return t
}

func fieldOf(t *types.Struct, name string) (types.Type, string, bool) {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return t.Field(i).Type(), t.Tag(i), true
		}
	}
	return nil, "", false
}

func methodOf(o types.Object, name string) types.Type {
	x, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, o.Pkg(), name)
	f, ok := x.(*types.Func)
	if !ok {
		return nil
	}
	sig := f.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	return sig.Results().At(0).Type()
}

func (s *schema) message(m *protogen.Message) {
	if m.Desc.IsMapEntry() {
		return
	}
	s.st.add("messages", 1)
	o := s.lookup(m.GoIdent)
	t := structOf(o)
	if t == nil {
		s.fail("message %s: no Go struct %s", m.Desc.FullName(), m.GoIdent.GoName)
		return
	}
	s.commented("message "+string(m.Desc.FullName()), m.GoIdent, "", m.Comments, m.Desc.Options().(*descriptorpb.MessageOptions).GetDeprecated(), false)
	if types.Comparable(o.Type()) {
		s.fail("message %s: values of %s can be compared with ==", m.Desc.FullName(), m.GoIdent.GoName)
		return
	}
	for _, f := range m.Fields {
		what := fmt.Sprintf("field %s", f.Desc.FullName())
		if f.Desc.IsWeak() {
			continue
		}
		if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
			s.oneofField(what, o, t, f)
			continue
		}
		s.st.add("fields", 1)
		s.commented(what, m.GoIdent, f.GoName, f.Comments, f.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated(), true)
		want := s.fieldType(f, false)
		if want == nil {
			return
		}
		ft, tag, ok := fieldOf(t, f.GoName)
		if !ok {
			s.fail("%s: %s has no field %s", what, m.GoIdent.GoName, f.GoName)
			return
		}
		if !types.Identical(ft, want) {
			s.fail("%s (%s): the Go type is %v, not %v", what, f.Desc.Kind(), ft, want)
			return
		}
		s.tag(what, tag, "protobuf", f)
		if f.Desc.IsMap() {
			s.st.add("maps", 1)
			s.tag(what, tag, "protobuf_key", f.Message.Fields[0])
			s.tag(what, tag, "protobuf_val", f.Message.Fields[1])
		}
	}
	for _, e := range m.Enums {
		s.enum(e)
	}
	for _, n := range m.Messages {
		s.message(n)
	}
}

func (s *schema) oneofField(what string, o types.Object, t *types.Struct, f *protogen.Field) {
	s.st.add("oneof_fields", 1)
	it, _, ok := fieldOf(t, f.Oneof.GoName)
	if !ok {
		s.fail("%s: the struct has no field %s for its oneof", what, f.Oneof.GoName)
		return
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		s.fail("%s: the oneof's Go type is %v, no interface", what, it)
		return
	}
	wo := s.lookup(f.GoIdent)
	w := structOf(wo)
	if w == nil {
		s.fail("%s: no Go struct %s for this choice of the oneof", what, f.GoIdent.GoName)
		return
	}
	if !types.Implements(types.NewPointer(wo.Type()), iface) {
		s.fail("%s: *%s cannot be put into the oneof", what, f.GoIdent.GoName)
		return
	}
	s.commented(what, f.GoIdent, f.GoName, f.Comments, f.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated(), true)
	if f.Oneof.Fields[0] == f {
		s.commented(fmt.Sprintf("oneof %s", f.Oneof.Desc.FullName()), f.Parent.GoIdent, f.Oneof.GoName, f.Oneof.Comments, false, false)
		// nothing else can
		s.st.add("oneofs", 1)
		for _, x := range s.choices {
			if x.Oneof == f.Oneof {
				continue
			}
			if w := s.lookup(x.GoIdent); w != nil && types.Implements(types.NewPointer(w.Type()), iface) {
				s.fail("%s: *%s, a choice of another oneof, can be put into this one", what, x.GoIdent.GoName)
			}
		}
		if g := methodOf(o, "Get"+f.Oneof.GoName); g == nil || !types.Identical(g, it) {
			s.fail("oneof %s: no accessor Get%s", f.Oneof.Desc.FullName(), f.Oneof.GoName)
		}
	}
	want := s.fieldType(f, true)
	if want == nil {
		return
	}
	ft, tag, ok := fieldOf(w, f.GoName)
	if !ok || !types.Identical(ft, want) {
		s.fail("%s: the Go type in %s is %v, not %v", what, f.GoIdent.GoName, ft, want)
		return
	}
	s.tag(what, tag, "protobuf", f)
	if g := methodOf(o, "Get"+f.GoName); g == nil || !types.Identical(g, want) {
		s.fail("%s: the accessor Get%s returns %v, not %v", what, f.GoName, g, want)
	}
}

func (s *schema) enum(e *protogen.Enum) {
	s.st.add("enums", 1)
	o, ok := s.lookup(e.GoIdent).(*types.TypeName)
	if !ok || !types.Identical(o.Type().Underlying(), types.Typ[types.Int32]) {
		s.fail("enum %s: no Go type %s that is an int32", e.Desc.FullName(), e.GoIdent.GoName)
		return
	}
	s.commented("enum "+string(e.Desc.FullName()), e.GoIdent, "", e.Comments, e.Desc.Options().(*descriptorpb.EnumOptions).GetDeprecated(), false)
	for _, v := range e.Values {
		s.commented("enum value "+string(v.Desc.FullName()), v.GoIdent, "", v.Comments, v.Desc.Options().(*descriptorpb.EnumValueOptions).GetDeprecated(), true)
		c, ok := s.lookup(v.GoIdent).(*types.Const)
		if !ok {
			s.fail("enum value %s: no constant %s", v.Desc.FullName(), v.GoIdent.GoName)
			return
		}
		n, exact := constant.Int64Val(constant.ToInt(c.Val()))
		if !exact || n != int64(v.Desc.Number()) || !types.Identical(c.Type(), o.Type()) {
			s.fail("enum value %s = %d: the constant is %v of type %v", v.Desc.FullName(), v.Desc.Number(), c.Val(), c.Type())
		}
	}
}

// forwards checks that file declares the symbols of a file it imports
// publicly.
func (s *schema) forwards(pkg *types.Package, imp *protogen.File) {
	same := func(id protogen.GoIdent) {
		a, b := s.lookup(id), pkg.Scope().Lookup(id.GoName)
		s.st.add("forwards", 1)
		switch {
		case a == nil:
		case b == nil:
			s.fail("public import of %s: package %s has no %s", imp.Desc.Path(), pkg.Path(), id.GoName)
		case !types.Identical(a.Type(), b.Type()):
			s.fail("public import of %s: %s.%s is another type", imp.Desc.Path(), pkg.Path(), id.GoName)
		default:
			if x, ok := a.(*types.Const); ok {
				if y, ok := b.(*types.Const); !ok || constant.Compare(x.Val(), token.NEQ, y.Val()) {
					s.fail("public import of %s: %s.%s is another value", imp.Desc.Path(), pkg.Path(), id.GoName)
				}
			}
		}
	}
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			same(e.GoIdent)
			for _, v := range e.Values {
				same(v.GoIdent)
			}
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if !m.Desc.IsMapEntry() {
				same(m.GoIdent)
			}
			enums(m.Enums)
			walk(m.Messages)
		}
	}
	enums(imp.Enums)
	walk(imp.Messages)
}

// checkCode compiles an answer and compares it with the request.
func checkCode(st *Stats, pg *protogen.Plugin, names []string, a *answer, run bool) *Violation {
	c := &compiler{fset: token.NewFileSet(), files: map[string][]*ast.File{}, done: map[string]*types.Package{}, busy: map[string]bool{}}
	var parsed []*ast.File
	for i, f := range pg.Files {
		n := names[i]
		text, ok := a.files[n]
		if !ok {
			return violf("declaration", "the answer lacks the file %s", n)
		}
		x, err := parser.ParseFile(c.fset, n, text, parser.ParseComments)
		if err != nil {
			return violf("does-not-compile", "%v", err)
		}
		if at := generatedLine.FindStringIndex(text); at == nil || at[0] > c.fset.Position(x.Package).Offset {
			return violf("declaration", "the file %s is not marked as generated code", n)
		}
		head := strings.Contains(strings.ToLower(text[:c.fset.Position(x.Package).Offset]), "deprecated")
		if f.Proto.GetOptions().GetDeprecated() != head && !strings.Contains(strings.ToLower(f.Desc.Path()), "deprecated") {
			return violf("declaration", "file %s: deprecated is %v in the schema, and %v at the head of the code", f.Desc.Path(), !head, head)
		}
		parsed = append(parsed, x)
		c.files[string(f.GoImportPath)] = append(c.files[string(f.GoImportPath)], x)
	}
	for _, f := range pg.Files {
		if _, err := c.Import(string(f.GoImportPath)); err != nil {
			return violf("does-not-compile", "%v", err)
		}
	}
	s := &schema{st: st, c: c, docs: map[string]doc{}}
	for i, f := range pg.Files {
		s.readDocs(string(f.GoImportPath), parsed[i])
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			for _, f := range m.Fields {
				if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
					s.choices = append(s.choices, f)
				}
			}
			walk(m.Messages)
		}
	}
	for _, f := range pg.Files {
		walk(f.Messages)
	}
	for _, f := range pg.Files {
		for _, e := range f.Enums {
			s.enum(e)
		}
		for _, m := range f.Messages {
			s.message(m)
		}
		for i, imps := 0, f.Desc.Imports(); i < imps.Len(); i++ {
			if imp := pg.FilesByPath[imps.Get(i).Path()]; imps.Get(i).IsPublic && imp != nil && imp.GoImportPath != f.GoImportPath {
				s.forwards(c.done[string(f.GoImportPath)], imp)
			}
		}
	}
	if s.vio == nil && run {
		return execute(st, pg, names, a, c.order)
	}
	return s.vio
}

// expressible tells whether Go has packages as the request wants them, with
// the names that protogen has chosen: no import cycle, no symbol declared in or
// forwarded into a package twice, and no field with the name of the accessor of
// a oneof.
func expressible(pg *protogen.Plugin) bool {
	seen := map[protogen.GoIdent]bool{}
	ok := true
	var syms []string
	declare := func(id protogen.GoIdent) {
		ok = ok && !seen[id]
		seen[id] = true
		syms = append(syms, id.GoName)
	}
	enums := func(es []*protogen.Enum) {
		for _, e := range es {
			declare(e.GoIdent)
			for _, v := range e.Values {
				declare(v.GoIdent)
			}
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			declare(m.GoIdent)
			names := map[string]bool{}
			for _, f := range m.Fields {
				names[f.GoName] = true
			}
			for _, o := range m.Oneofs {
				names[o.GoName] = names[o.GoName] || !o.Desc.IsSynthetic()
			}
			for _, o := range m.Oneofs {
				if o.Desc.IsSynthetic() {
					continue
				}
				ok = ok && !names["Get"+o.GoName]
				names["Get"+o.GoName] = true
				for _, f := range o.Fields {
					declare(f.GoIdent)
				}
			}
			for _, f := range m.Fields {
				if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
					ok = ok && !names["Get"+f.GoName]
					names["Get"+f.GoName] = true
				}
			}
			enums(m.Enums)
			walk(m.Messages)
		}
	}
	of := map[string][]string{}
	for _, f := range pg.Files {
		syms = nil
		enums(f.Enums)
		walk(f.Messages)
		of[f.Desc.Path()] = syms
	}
	if !ok {
		return false
	}
	deps := map[string]map[string]bool{}
	fwd := map[[2]string]bool{}
	for _, f := range pg.Files {
		from := string(f.GoImportPath)
		if deps[from] == nil {
			deps[from] = map[string]bool{}
		}
		for i, imps := 0, f.Desc.Imports(); i < imps.Len(); i++ {
			imp := pg.FilesByPath[imps.Get(i).Path()]
			if imp == nil || imp.GoImportPath == f.GoImportPath {
				continue
			}
			deps[from][string(imp.GoImportPath)] = true
			if k := [2]string{from, imp.Desc.Path()}; imps.Get(i).IsPublic {
				if fwd[k] {
					return false
				}
				fwd[k] = true
				for _, n := range of[imp.Desc.Path()] {
					declare(protogen.GoIdent{GoName: n, GoImportPath: f.GoImportPath})
				}
			}
		}
	}
	state := map[string]int{}
	var visit func(p string) bool
	visit = func(p string) bool {
		if state[p] != 0 {
			return state[p] == 2
		}
		state[p] = 1
		for d := range deps[p] {
			if !visit(d) {
				return false
			}
		}
		state[p] = 2
		return true
	}
	for p := range deps {
		if !visit(p) {
			return false
		}
	}
	return ok
}

func runCode(p *Plan, st *Stats) *Violation {
	home := scratch()
	defer os.RemoveAll(home)
	req := new(pluginpb.CodeGeneratorRequest)
	if err := stdproto.Unmarshal(p.Vals[0].B, req); err != nil {
		st.trivial = true
		return nil
	}
	names, err := expectFiles(req)
	if err != nil || len(names) != len(req.ProtoFile) {
		st.trivial = true
		return nil
	}
	var flags flag.FlagSet
	pg, err := protogen.Options{ParamFunc: flags.Set}.New(req)
	if err != nil {
		st.trivial = true
		return nil
	}
	for _, f := range pg.Files {
		if !f.Generate {
			st.trivial = true
			return nil
		}
	}
	if !expressible(pg) {
		st.trivial = true
		st.add("not_expressible_in_go", 1)
		return nil
	}
	seen := map[string]bool{}
	for i := range p.Ops {
		o := &p.Ops[i]
		c := &child{in: marshalStd(req), mapSeed: uint64(o.A[0]) | 1, clock: o.A[1]}
		if clockStep(c.clock) != 0 {
			st.add("clock_jumps", 1)
		}
		c.surroundings(ref.NewRng(uint64(o.A[2])), home)
		for _, k := range o.A[3:] {
			c.chunks = append(c.chunks, int(k))
		}
		st.Calls++
		got := c.run()
		st.add("input_pieces", got.reads)
		name := fmt.Sprintf("operation %d (map seed %d, parameter %q)", i, c.mapSeed, req.GetParameter())
		if got.timeout {
			return violf("hang", "%s: the plugin does not end", name)
		}
		if !got.ok {
			return violf("no-answer", "%s: the plugin fails on a valid request: %s %s", name, got.exit, short(got.stderr))
		}
		a, bad := parseAnswer(got.out)
		if a == nil {
			return violf("answer", "%s: %s", name, bad)
		}
		if a.err != "" {
			return violf("no-answer", "%s: the plugin reports an error for a valid request: %s", name, a.err)
		}
		st.digest(got.out)
		// without this, protoc refuses the answer
		if a.features&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 && wantsOptional(pg) {
			return violf("declaration", "%s: a file to generate has proto3 optional fields, and the answer does not say that it supports them", name)
		}
		if seen[string(got.out)] {
			continue
		}
		seen[string(got.out)] = true
		st.add("answers_compiled", 1)
		st.add("files_compiled", len(pg.Files))
		if v := checkCode(st, pg, names, a, o.K == "execute"); v != nil {
			v.Msg = name + ": " + v.Msg
			return v
		}
	}
	return nil
}

func wantsOptional(pg *protogen.Plugin) bool {
	var in func(ms []*protogen.Message) bool
	in = func(ms []*protogen.Message) bool {
		for _, m := range ms {
			for _, f := range m.Fields {
				if f.Desc.HasOptionalKeyword() && f.Desc.ParentFile().Syntax() == protoreflect.Proto3 {
					return true
				}
			}
			if in(m.Messages) {
				return true
			}
		}
		return false
	}
	for _, f := range pg.Files {
		if f.Generate && in(f.Messages) {
			return true
		}
	}
	return false
}

func init() {
	scenarios["C18"] = &scenario{gen: genCode, run: runCode,
		rule: "a seed draws a request (1-5 proto files with messages, maps, oneofs, groups, extensions, comments, public imports, odd and colliding names, options; random parameters; every file to be generated) and 1-2 runs of the plugin under simulated map order, clock, environment and input pieces; each answer is compiled and every declaration compared with the schema; non-trivial if the request is valid; distinct by the text generated"}
}

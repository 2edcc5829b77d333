package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// execute compiles an answer with the Go compiler, links it with a program
// that uses every oneof accessor in it, and runs that program.
func execute(st *Stats, pg *protogen.Plugin, names []string, a *answer, order []string) *Violation {
	text := accessorProgram(st, pg)
	dir, err := os.MkdirTemp(os.Getenv("TMPDIR"), "exec")
	must(err)
	defer os.RemoveAll(dir)
	cfg, err := os.ReadFile(os.Getenv("VERIF_IMPORTCFG"))
	must(err)
	byPkg := map[string][]string{}
	for i, f := range pg.Files {
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		must(os.WriteFile(p, []byte(a.files[names[i]]), 0o600))
		byPkg[string(f.GoImportPath)] = append(byPkg[string(f.GoImportPath)], p)
	}
	conf := filepath.Join(dir, "importcfg")
	tool := func(name string, args ...string) (string, error) {
		c := exec.Command(name, args...)
		c.Dir = dir
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		must(c.Start())
		t := time.AfterFunc(100*time.Second, func() { _ = c.Process.Kill() })
		defer t.Stop()
		err := c.Wait()
		return out.String(), err
	}
	compile := func(path, obj string, files []string) *Violation {
		must(os.WriteFile(conf, cfg, 0o600))
		out, err := tool(os.Getenv("VERIF_COMPILE"), append([]string{"-p", path, "-complete", "-pack", "-lang=go1.18", "-importcfg", conf, "-o", obj}, files...)...)
		if err != nil {
			return violf("does-not-compile", "package %s: %v: %s", path, err, short(strings.ReplaceAll(out, dir, "")))
		}
		return nil
	}
	for i, path := range order {
		obj := filepath.Join(dir, fmt.Sprintf("p%d.a", i))
		if v := compile(path, obj, byPkg[path]); v != nil {
			return v
		}
		cfg = append(cfg, fmt.Sprintf("packagefile %s=%s\n", path, obj)...)
	}
	st.add("answers_compiled_by_gc", 1)
	if text == "" {
		return nil
	}
	mf := filepath.Join(dir, "main.go")
	must(os.WriteFile(mf, []byte(text), 0o600))
	if v := compile("main", filepath.Join(dir, "main.a"), []string{mf}); v != nil {
		// the program itself has only what the declarations were found to allow
		return v
	}
	bin := filepath.Join(dir, "main")
	if out, err := tool(os.Getenv("VERIF_LINK"), "-importcfg", conf, "-o", bin, filepath.Join(dir, "main.a")); err != nil {
		return violf("does-not-compile", "linking: %v: %s", err, short(strings.ReplaceAll(out, dir, "")))
	}
	out, err := tool(bin)
	if err != nil {
		return violf("accessor", "%s (%v)", short(out), err)
	}
	st.add("programs_run", 1)
	return nil
}

func goValue(f *protogen.Field, alias func(protogen.GoImportPath) string) string {
	switch f.Desc.Kind() {
	case protoreflect.BoolKind:
		return "true"
	case protoreflect.StringKind:
		return `"some text"`
	case protoreflect.BytesKind:
		return `[]byte("some bytes")`
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return "new(" + alias(f.Message.GoIdent.GoImportPath) + "." + f.Message.GoIdent.GoName + ")"
	case protoreflect.EnumKind:
		return fmt.Sprintf("int32(%d)", int32(f.Enum.Values[0].Desc.Number())/2+17)
	}
	return types.Typ[goBasic[f.Desc.Kind()]].Name() + "(7)"
}

func zeroTest(f *protogen.Field, expr string) string {
	if f.Desc.HasDefault() {
		return "" // what a getter does about these is not specified
	}
	switch f.Desc.Kind() {
	case protoreflect.BoolKind:
		return "!" + expr
	case protoreflect.StringKind:
		return expr + ` == ""`
	case protoreflect.BytesKind:
		return "len(" + expr + ") == 0"
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return expr + " == nil"
	case protoreflect.EnumKind:
		return fmt.Sprintf("%s == %d", expr, f.Enum.Values[0].Desc.Number())
	}
	return expr + " == 0"
}

// accessorProgram writes a program that puts every choice into every oneof,
// together with choices of the other oneofs, and reads everything back.
func accessorProgram(st *Stats, pg *protogen.Plugin) string {
	var body strings.Builder
	aliases := map[protogen.GoImportPath]string{}
	var imports strings.Builder
	alias := func(p protogen.GoImportPath) string {
		if aliases[p] == "" {
			aliases[p] = fmt.Sprintf("p%d", len(aliases))
			fmt.Fprintf(&imports, "\t%s %q\n", aliases[p], string(p))
		}
		return aliases[p]
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			walk(m.Messages)
			var one []*protogen.Oneof
			for _, o := range m.Oneofs {
				if !o.Desc.IsSynthetic() {
					one = append(one, o)
				}
			}
			if len(one) == 0 {
				continue
			}
			st.add("oneof_messages_run", 1)
			typ := alias(m.GoIdent.GoImportPath) + "." + m.GoIdent.GoName
			fmt.Fprintf(&body, "\twhat = %q\n\t{\n\t\tvar none *%s\n\t\tm := new(%s)\n", m.Desc.FullName(), typ, typ)
			for _, who := range []string{"none", "m"} {
				for _, o := range one {
					fmt.Fprintf(&body, "\t\teq(%q, %s.Get%s() == nil)\n", who+" Get"+o.GoName, who, o.GoName)
					for _, f := range o.Fields {
						if t := zeroTest(f, who+".Get"+f.GoName+"()"); t != "" {
							fmt.Fprintf(&body, "\t\teq(%q, %s)\n", who+" Get"+f.GoName, t)
						}
					}
				}
			}
			n := 0
			for _, o := range one {
				for _, f := range o.Fields {
					// the oneofs before this one keep their last choice
					st.add("choices_run", 1)
					n++
					w := fmt.Sprintf("w%d", n)
					v := fmt.Sprintf("v%d", n)
					wt := alias(f.GoIdent.GoImportPath) + "." + f.GoIdent.GoName
					name := "with " + f.GoName + ": "
					fmt.Fprintf(&body, "\t\t%s := %s\n\t\t%s := &%s{%s: %s}\n\t\tm.%s = %s\n", v, goValue(f, alias), w, wt, f.GoName, v, o.GoName, w)
					got := "m.Get" + f.GoName + "()"
					if f.Desc.Kind() == protoreflect.BytesKind {
						fmt.Fprintf(&body, "\t\teq(%q, string(%s) == string(%s))\n", name+"Get"+f.GoName, got, v)
					} else {
						fmt.Fprintf(&body, "\t\teq(%q, %s == %s)\n", name+"Get"+f.GoName, got, v)
					}
					fmt.Fprintf(&body, "\t\teq(%q, m.Get%s() == m.%s)\n", name+"Get"+o.GoName, o.GoName, o.GoName)
					for _, g := range o.Fields {
						if g == f {
							continue
						}
						if t := zeroTest(g, "m.Get"+g.GoName+"()"); t != "" {
							fmt.Fprintf(&body, "\t\teq(%q, %s)\n", name+"Get"+g.GoName, t)
						}
					}
				}
			}
			body.WriteString("\t}\n")
		}
	}
	for _, f := range pg.Files {
		walk(f.Messages)
	}
	if body.Len() == 0 {
		return ""
	}
	return "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n" + imports.String() + ")\n\nvar what string\n\nfunc eq(name string, ok bool) {\n\tif !ok {\n\t\tfmt.Println(what, name)\n\t\tos.Exit(1)\n\t}\n}\n\n" +
		"func main() {\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tfmt.Println(what, e)\n\t\t\tos.Exit(1)\n\t\t}\n\t}()\n" + body.String() + "}\n"
}

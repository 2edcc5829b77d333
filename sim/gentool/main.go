// gentool draws proto files, has the plugin under test generate Go code for
// them and writes that code, with a registry, into the simulator's tree.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/verifsim/descgen"
)

const module = "github.com/RomiChan/protobuf/"
const prefix = module + "verifsim/gentypes"

func broken(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(4)
}

func check(err error) {
	if err != nil {
		fmt.Println("gentool:", err)
		os.Exit(3)
	}
}

func main() {
	seed := flag.Uint64("seed", 1, "")
	plugin := flag.String("plugin", "", "")
	src := flag.String("src", "", "")
	sets := flag.Int("n", 24, "")
	flag.Parse()

	var imports, regs, descs strings.Builder
	aliases := map[string]string{}
	for i := 0; i < *sets; i++ {
		r := descgen.NewRng(*seed*1000003 + uint64(i))
		files := descgen.Files(r, &descgen.Opts{Files: 1 + r.Intn(3), Msgs: 2 + r.Intn(3), Prefix: prefix, NameTag: fmt.Sprintf("s%d", i)})
		req := &pluginpb.CodeGeneratorRequest{ProtoFile: files, CompilerVersion: &pluginpb.Version{Major: proto.Int32(3), Minor: proto.Int32(15), Patch: proto.Int32(8)}}
		for _, f := range files {
			req.FileToGenerate = append(req.FileToGenerate, f.GetName())
		}
		pg, err := protogen.Options{}.New(req)
		check(err)
		in, err := proto.Marshal(req)
		check(err)
		cmd := exec.Command(*plugin)
		cmd.Stdin = bytes.NewReader(in)
		var out, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eb
		if err := cmd.Run(); err != nil {
			broken("the plugin failed: %v: %s", err, eb.String())
		}
		resp := new(pluginpb.CodeGeneratorResponse)
		if err := proto.Unmarshal(out.Bytes(), resp); err != nil {
			broken("the plugin's answer: %v", err)
		}
		if resp.Error != nil {
			broken("the plugin reports: %s", resp.GetError())
		}
		have := map[string]bool{}
		for _, f := range resp.File {
			if !strings.HasPrefix(f.GetName(), prefix+"/") {
				broken("the plugin generated a file %q outside of its Go package", f.GetName())
			}
			p := filepath.Join(*src, filepath.FromSlash(f.GetName()[len(module):]))
			check(os.MkdirAll(filepath.Dir(p), 0o755))
			check(os.WriteFile(p, []byte(f.GetContent()), 0o644))
			have[f.GetName()] = true
		}
		for _, f := range pg.Files {
			if !have[f.GeneratedFilenamePrefix+".pb.go"] {
				broken("the plugin's answer lacks %s.pb.go", f.GeneratedFilenamePrefix)
			}
		}
		db, err := proto.Marshal(&descriptorpb.FileDescriptorSet{File: files})
		check(err)
		fmt.Fprintf(&descs, "\t\t%s,\n", strconv.Quote(string(db)))
		for _, f := range pg.Files {
			path := string(f.GoImportPath)
			var walk func(ms []*protogen.Message)
			walk = func(ms []*protogen.Message) {
				for _, m := range ms {
					if m.Desc.IsMapEntry() {
						continue
					}
					a := aliases[path]
					if a == "" {
						a = fmt.Sprintf("a%d", len(aliases))
						aliases[path] = a
						fmt.Fprintf(&imports, "\t%s %q\n", a, path)
					}
					fmt.Fprintf(&regs, "\treg(%d, %q, reflect.TypeOf(%s.%s{}), map[int32]string{", i, string(m.Desc.FullName()), a, m.GoIdent.GoName)
					fs := append([]*protogen.Field(nil), m.Fields...)
					sort.Slice(fs, func(i, j int) bool { return fs[i].Desc.Number() < fs[j].Desc.Number() })
					for _, x := range fs {
						fmt.Fprintf(&regs, "%d: %q, ", x.Desc.Number(), x.GoName)
					}
					regs.WriteString("})\n")
					walk(m.Messages)
				}
			}
			walk(f.Messages)
		}
	}
	text := "package gentypes\n\nimport (\n\t\"reflect\"\n" + imports.String() + ")\n\nfunc init() {\n\tSets = []string{\n" + descs.String() + "\t}\n" + regs.String() + "}\n"
	check(os.WriteFile(filepath.Join(*src, "verifsim", "gentypes", "generated.go"), []byte(text), 0o644))
}

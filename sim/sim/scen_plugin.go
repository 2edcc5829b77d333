package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/encoding/protowire"
	stdproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/verifsim/descgen"
	"github.com/RomiChan/protobuf/verifsim/ref"
)

// The code generator runs as the program it is, a child of the simulator,
// which decides everything the program can observe: the random source of its
// runtime, its clock, environment, directory and earlier runs, what each of
// its reads returns and what becomes of its writes.

// child is one run of the plugin.
type child struct {
	in      []byte
	mapSeed uint64
	clock   int64
	env     []string
	dir     string
	argv0   string
	chunks  []int  // sizes of the writes to its standard input; the rest at once
	stdin   string // "", "dir", "writeonly", "reset" (the connection breaks at the end), "nonblock", "file"
	stdout  string // "", "full", "readonly", "broken", "close" (the reader leaves), "slow", "fsize", "packet", "null-err" (stderr is full)
	keep    int    // bytes read before the reader leaves
	limit   int    // address space in MB
}

type childRes struct {
	ok      bool
	exit    string
	out     []byte
	stderr  string
	timeout bool
	reads   int // writes to its input that it took one by one
}

const pipeSize = 4096

func fionread(fd uintptr) int {
	var n int32
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
	if e != 0 {
		return 0
	}
	return int(n)
}

func must(err error) {
	if err != nil {
		fatal("plugin run: %v", err)
	}
}

func socketpair() (*os.File, *os.File) {
	fd, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	return os.NewFile(uintptr(fd[0]), "near"), os.NewFile(uintptr(fd[1]), "far")
}

// clockStep is by how much the clock of a run that starts at that time jumps
// with each look at it.
func clockStep(clock int64) int64 {
	if clock == 0 {
		return 0
	}
	return []int64{0, 0, 1, 1000, 1e9, 60e9, 86400e9, -1e9, -3600e9, 400 * 86400e9}[uint64(clock)%10]
}

func (c *child) run() (res childRes) {
	bin := os.Getenv("VERIF_PLUGIN")
	if c.argv0 != "" {
		bin = c.argv0
	}
	cmd := exec.Command(bin)
	if c.stdout == "fsize" || c.limit > 0 {
		s := ""
		if c.limit > 0 {
			s += fmt.Sprintf("ulimit -v %d; ", c.limit*1024)
		}
		if c.stdout == "fsize" {
			s += fmt.Sprintf("ulimit -f %d; ", c.keep)
		}
		cmd = exec.Command("/bin/sh", "-c", s+`exec "$0"`, bin)
	}
	cmd.Dir = c.dir
	cmd.Env = append([]string{fmt.Sprintf("VERIF_MAPSEED=%d", c.mapSeed)}, c.env...)
	if c.clock != 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_CLOCK=%d", c.clock))
		if s := clockStep(c.clock); s != 0 {
			cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_CLOCKSTEP=%d", s))
		}
	}
	var closeLater []*os.File
	defer func() {
		for _, f := range closeLater {
			f.Close()
		}
	}()
	open := func(name string, flags int) *os.File {
		f, err := os.OpenFile(name, flags, 0o600)
		must(err)
		closeLater = append(closeLater, f)
		return f
	}

	// input
	var feed *os.File
	var childIn *os.File
	switch c.stdin {
	case "dir":
		cmd.Stdin = open(c.dir, os.O_RDONLY)
	case "writeonly":
		cmd.Stdin = open(os.DevNull, os.O_WRONLY)
	case "file":
		f := filepath.Join(c.dir, "request")
		must(ioutil.WriteFile(f, c.in, 0o600))
		cmd.Stdin = open(f, os.O_RDONLY)
	case "reset":
		near, far := socketpair()
		// something the near end will never read: closing it is a reset
		_, err := far.Write([]byte{1})
		must(err)
		feed, childIn = near, far
		cmd.Stdin = far
	default:
		r, w, err := os.Pipe()
		must(err)
		if c.stdin == "nonblock" { // after it is a file: os would make it blocking again
			fd, err := syscall.Dup(int(r.Fd()))
			must(err)
			syscall.CloseOnExec(fd)
			r.Close()
			r = os.NewFile(uintptr(fd), "in")
			must(syscall.SetNonblock(fd, true))
		}
		feed, childIn = w, r
		cmd.Stdin = r
	}

	// output
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	var drain *os.File
	var childOut *os.File
	var outFile string
	switch c.stdout {
	case "full":
		cmd.Stdout = open("/dev/full", os.O_WRONLY)
	case "readonly":
		cmd.Stdout = open(os.DevNull, os.O_RDONLY)
	case "fsize", "file":
		outFile = filepath.Join(c.dir, "answer")
		cmd.Stdout = open(outFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
	default:
		r, w, err := os.Pipe()
		must(err)
		if c.stdout != "" {
			_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031, pipeSize)
		}
		if c.stdout == "slow-nonblock" { // after it is a file: os would make it blocking again
			fd, err := syscall.Dup(int(w.Fd()))
			must(err)
			syscall.CloseOnExec(fd)
			w.Close()
			w = os.NewFile(uintptr(fd), "out")
			must(syscall.SetNonblock(fd, true))
		}
		drain, childOut = r, w
		cmd.Stdout = w
		if c.stdout == "broken" {
			r.Close()
			drain = nil
		}
		if c.stdout == "null-err" {
			cmd.Stderr = open("/dev/full", os.O_WRONLY)
		}
	}
	must(cmd.Start())
	if childIn != nil {
		childIn.Close()
	}
	if childOut != nil {
		childOut.Close()
	}
	timer := time.AfterFunc(30*time.Second, func() { res.timeout = true; _ = cmd.Process.Kill() })
	done := make(chan struct{})
	fed := make(chan int, 1)
	if feed != nil {
		go func() {
			n := 0
			rest := c.in
			for _, k := range c.chunks {
				if k > len(rest) {
					k = len(rest)
				}
				if k == 0 {
					break
				}
				if _, err := feed.Write(rest[:k]); err != nil {
					break
				}
				rest = rest[k:]
				n++
				// the next one only when this one has been read
			wait:
				for i := 0; c.stdin != "reset" && fionread(feed.Fd()) > 0; i++ {
					select {
					case <-done:
						break wait
					default:
					}
					time.Sleep(5 * time.Microsecond)
				}
			}
			_, _ = feed.Write(rest)
			feed.Close()
			fed <- n
		}()
	} else {
		fed <- 0
	}
	drained := make(chan []byte, 1)
	if drain != nil {
		go func() {
			var out []byte
			switch c.stdout {
			case "close":
				buf := make([]byte, c.keep)
				for len(out) < c.keep {
					n, err := drain.Read(buf[:c.keep-len(out)])
					out = append(out, buf[:n]...)
					if err != nil {
						break
					}
				}
			case "slow", "slow-nonblock":
				buf := make([]byte, 1+c.keep+len(c.in)/20000)
				for {
					n, err := drain.Read(buf)
					out = append(out, buf[:n]...)
					if err != nil {
						break
					}
				}
			default:
				out, _ = ioutil.ReadAll(drain)
			}
			drain.Close()
			drained <- out
		}()
	} else {
		drained <- nil
	}
	res.out = <-drained
	err := cmd.Wait()
	close(done)
	timer.Stop()
	res.reads = <-fed
	res.stderr = stderr.String()
	if err == nil {
		res.ok = true
		res.exit = "success"
	} else {
		var e *exec.ExitError
		if !errors.As(err, &e) {
			fatal("plugin run: %v", err)
		}
		res.exit = e.String()
	}
	if outFile != "" {
		res.out, _ = ioutil.ReadFile(outFile)
	}
	return res
}

// expectFiles names the files a request asks for.
func expectFiles(req *pluginpb.CodeGeneratorRequest) (names []string, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	var flags flag.FlagSet
	g, err := protogen.Options{ParamFunc: flags.Set}.New(req)
	if err != nil {
		return nil, err
	}
	for _, f := range g.Files {
		if f.Generate {
			g.NewGeneratedFile(f.GeneratedFilenamePrefix+".pb.go", f.GoImportPath).P("package x")
		}
	}
	r := g.Response()
	if r.Error != nil {
		return nil, errors.New(r.GetError())
	}
	for _, f := range r.File {
		if !strings.HasSuffix(f.GetName(), ".meta") {
			names = append(names, f.GetName())
		}
	}
	return names, nil
}

// answer is a parsed answer of the plugin.
type answer struct {
	err      string
	files    map[string]string
	features uint64
}

func parseAnswer(b []byte) (*answer, string) {
	r := new(pluginpb.CodeGeneratorResponse)
	if err := stdproto.Unmarshal(b, r); err != nil {
		return nil, fmt.Sprintf("the answer cannot be parsed: %v", err)
	}
	a := &answer{err: r.GetError(), files: map[string]string{}, features: r.GetSupportedFeatures()}
	last := ""
	for i, f := range r.File {
		if f.GetInsertionPoint() != "" {
			return nil, fmt.Sprintf("the answer inserts text into the file %q", f.GetName())
		}
		if f.GetName() == "" && i > 0 { // goes on with the file before
			a.files[last] += f.GetContent()
			continue
		}
		last = f.GetName()
		if _, dup := a.files[f.GetName()]; dup {
			return nil, "the answer has two files " + f.GetName()
		}
		a.files[f.GetName()] = f.GetContent()
	}
	return a, ""
}

// complete tells what an answer lacks.
func (a *answer) complete(names []string) string {
	for _, n := range names {
		c, ok := a.files[n]
		if !ok {
			return "the answer lacks the file " + n
		}
		if _, err := parser.ParseFile(token.NewFileSet(), n, c, parser.AllErrors); err != nil {
			return fmt.Sprintf("the file %s in the answer is no Go file: %v", n, err)
		}
	}
	return ""
}

func (a *answer) diff(b *answer, subset bool) string {
	if a.err != b.err {
		return fmt.Sprintf("error %q instead of %q", b.err, a.err)
	}
	if a.features != b.features && !subset {
		return fmt.Sprintf("supported features %#x instead of %#x", b.features, a.features)
	}
	var names []string
	for n := range b.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x, ok := a.files[n]
		if !ok {
			return "an additional file " + n
		}
		if x != b.files[n] {
			return fmt.Sprintf("the file %s is different: %s", n, textDiff(x, b.files[n]))
		}
	}
	if !subset && len(a.files) != len(b.files) {
		return fmt.Sprintf("%d files instead of %d", len(b.files), len(a.files))
	}
	return ""
}

func textDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, short(y[i]), short(x[i]))
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(y), len(x))
}

// randRequest draws a request.
func randRequest(r *ref.Rng, tag string) *pluginpb.CodeGeneratorRequest {
	files := descgen.Files(r, &descgen.Opts{Files: 1 + r.Intn(r.Pick(1, 3, 5, 5)), Msgs: r.Intn(r.Pick(2, 4, 6)), Prefix: "example.com/x", NameTag: tag, Full: r.P(800), OnePkg: r.P(150)})
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: files, CompilerVersion: &pluginpb.Version{Major: stdproto.Int32(3), Minor: stdproto.Int32(int32(12 + r.Intn(9))), Patch: stdproto.Int32(int32(r.Intn(5)))}}
	for _, f := range files {
		if r.P(850) {
			req.FileToGenerate = append(req.FileToGenerate, f.GetName())
		}
	}
	if len(req.FileToGenerate) == 0 {
		req.FileToGenerate = []string{files[0].GetName()}
	}
	var ps []string
	switch r.Intn(6) {
	case 0, 1:
		ps = append(ps, "paths=source_relative")
	case 2:
		ps = append(ps, "module=example.com/x")
	case 3:
		ps = append(ps, "paths=import")
	}
	if r.P(100) {
		ps = append(ps, "annotate_code=true")
	}
	if r.P(150) {
		f := files[r.Intn(len(files))]
		ps = append(ps, "M"+f.GetName()+"=example.com/x/mapped;mapped")
	}
	if len(ps) > 0 {
		req.Parameter = stdproto.String(strings.Join(ps, ","))
	}
	return req
}

func marshalStd(m stdproto.Message) []byte {
	b, err := stdproto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	return b
}

// closure drops the proto files that files does not need.
func closure(all []*descriptorpb.FileDescriptorProto, names []string) []*descriptorpb.FileDescriptorProto {
	need := map[string]bool{}
	by := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range all {
		by[f.GetName()] = f
	}
	var add func(n string)
	add = func(n string) {
		if need[n] || by[n] == nil {
			return
		}
		need[n] = true
		for _, d := range by[n].Dependency {
			add(d)
		}
	}
	for _, n := range names {
		add(n)
	}
	var out []*descriptorpb.FileDescriptorProto
	for _, f := range all {
		if need[f.GetName()] {
			out = append(out, f)
		}
	}
	return out
}

// topo puts the files into another order in which each follows its imports.
func topo(r *ref.Rng, all []*descriptorpb.FileDescriptorProto) []*descriptorpb.FileDescriptorProto {
	have := map[string]bool{}
	left := append([]*descriptorpb.FileDescriptorProto(nil), all...)
	var out []*descriptorpb.FileDescriptorProto
	for len(left) > 0 {
		var ready []int
		for i, f := range left {
			ok := true
			for _, d := range f.Dependency {
				if !have[d] {
					ok = false
				}
			}
			if ok {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			return append(out, left...)
		}
		i := ready[r.Intn(len(ready))]
		have[left[i].GetName()] = true
		out = append(out, left[i])
		left = append(left[:i:i], left[i+1:]...)
	}
	return out
}

func shuffle(r *ref.Rng, s []string) []string {
	s = append([]string(nil), s...)
	for i := len(s) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		s[i], s[j] = s[j], s[i]
	}
	return s
}

// ---- C12 ----

func genDeterm(r *ref.Rng, p *Plan) {
	p.Vals = []Val{{T: 0, B: marshalStd(randRequest(r, "t"))}}
	kinds := []string{"again", "again", "again", "order", "subset", "subset", "decoy"}
	for i := 2 + r.Intn(5); i > 0; i-- {
		p.Ops = append(p.Ops, Op{K: kinds[r.Intn(len(kinds))], A: []int64{int64(r.U64() >> 2), int64(r.U64() >> 2), int64(r.Intn(1 << 32)), int64(r.U64() >> 2)}})
	}
}

// scratch makes an empty directory.
func scratch() string {
	d, err := ioutil.TempDir("", "plug-")
	must(err)
	return d
}

func baseEnv(home string) []string {
	return []string{"PATH=/usr/bin:/bin", "HOME=" + home, "TMPDIR=" + home}
}

var (
	mentionedOnce bool
	mentionedVars []string
	mentionedPath []string
	varName       = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,}$`)
	pathName      = regexp.MustCompile(`^\.?[a-zA-Z0-9_-]+\.[a-z]+$`)
)

// mentioned returns the strings in the plugin's code that could be names of
// environment variables and files.
func mentioned() ([]string, []string) {
	if mentionedOnce {
		return mentionedVars, mentionedPath
	}
	mentionedOnce = true
	root := filepath.Dir(os.Getenv("VERIF_PROTOSRC"))
	seen := map[string]bool{"VERIF_MAPSEED": true}
	for _, d := range []string{"cmd", "internal"} {
		_ = filepath.Walk(filepath.Join(root, d), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				return nil
			}
			ast.Inspect(f, func(n ast.Node) bool {
				l, ok := n.(*ast.BasicLit)
				if !ok || l.Kind != token.STRING {
					return true
				}
				x, err := strconv.Unquote(l.Value)
				if err != nil || seen[x] {
					return true
				}
				seen[x] = true
				switch {
				case varName.MatchString(x):
					mentionedVars = append(mentionedVars, x)
				case pathName.MatchString(x):
					mentionedPath = append(mentionedPath, x)
				}
				return true
			})
			return nil
		})
	}
	sort.Strings(mentionedVars)
	sort.Strings(mentionedPath)
	return mentionedVars, mentionedPath
}

// surroundings draws an environment.
func (c *child) surroundings(r *ref.Rng, home string) {
	c.dir = home
	c.env = []string{"PATH=" + []string{"/usr/bin:/bin", "/nowhere", ""}[r.Intn(3)], "HOME=" + home, "TMPDIR=" + home}
	some := func(k string, v ...string) {
		if r.P(400) {
			c.env = append(c.env, k+"="+v[r.Intn(len(v))])
		}
	}
	some("TZ", "UTC", "Asia/Tokyo", "America/New_York")
	some("LANG", "C", "de_DE.UTF-8", "zh_CN.UTF-8")
	some("LC_ALL", "C", "tr_TR.UTF-8")
	some("USER", "root", "somebody")
	some("HOSTNAME", "a", "b")
	some("PWD", "/", "/elsewhere")
	some("GOGC", "1", "off", "100")
	some("GOMAXPROCS", "1", "2", "8")
	some("GOPATH", "/gopath", "")
	some("GOFLAGS", "-mod=vendor", "-mod=mod")
	some("GOPACKAGE", "other")
	some("GO111MODULE", "on", "off")
	some("SOURCE_DATE_EPOCH", "0", "1700000000")
	some("DEBUG", "1")
	some("VERBOSE", "1")
	if r.P(300) {
		c.dir = filepath.Join(home, "work", "dir")
		must(os.MkdirAll(c.dir, 0o755))
		must(ioutil.WriteFile(filepath.Join(c.dir, "go.mod"), []byte("module example.com/other\n"), 0o644))
		must(ioutil.WriteFile(filepath.Join(c.dir, "tf0.pb.go"), []byte("package old\n"), 0o644))
	}
	// what the plugin's own code mentions and its surroundings could have
	vars, files := mentioned()
	for _, n := range vars {
		some(n, "1", "true", "x")
	}
	for _, n := range files {
		if r.P(200) {
			_ = ioutil.WriteFile(filepath.Join(c.dir, n), []byte("text\n"), 0o600)
		}
	}
	if r.P(300) {
		n := filepath.Join(home, []string{"protoc-gen-other", "a.out", "protoc-gen-golite-v2"}[r.Intn(3)])
		_ = os.Remove(n)
		must(os.Symlink(os.Getenv("VERIF_PLUGIN"), n))
		c.argv0 = n
	}
}

func hideDir(s, d string) string { return strings.ReplaceAll(s, d, "$DIR") }

func runDeterm(p *Plan, st *Stats) *Violation {
	home := scratch()
	defer os.RemoveAll(home)
	req := new(pluginpb.CodeGeneratorRequest)
	if err := stdproto.Unmarshal(p.Vals[0].B, req); err != nil {
		st.trivial = true
		return nil
	}
	runReq := func(c *child, q *pluginpb.CodeGeneratorRequest) childRes {
		c.in = marshalStd(q)
		st.Calls++
		return c.run()
	}
	first := scratch()
	defer os.RemoveAll(first)
	base := runReq(&child{mapSeed: 1, env: baseEnv(first), dir: first}, req)
	if base.timeout {
		return violf("hang", "the plugin does not end")
	}
	if !base.ok {
		st.trivial = true
		st.add("request_refused", 1)
	}
	var want *answer
	if base.ok {
		var bad string
		if want, bad = parseAnswer(base.out); want == nil {
			return violf("answer", "%s", bad)
		}
		for _, x := range sortedNames(want.files) {
			st.digest([]byte(x))
			st.digest([]byte(want.files[x]))
		}
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		r := ref.NewRng(uint64(o.A[3]))
		c := &child{mapSeed: uint64(o.A[0]) | 1, clock: o.A[2], env: baseEnv(home), dir: home}
		q := stdproto.Clone(req).(*pluginpb.CodeGeneratorRequest)
		subset := false
		st.add("variant_"+o.K, 1)
		if clockStep(c.clock) != 0 {
			st.add("clock_jumps", 1)
		}
		switch o.K {
		case "again":
			c.surroundings(r, home)
		case "order":
			q.FileToGenerate = shuffle(r, q.FileToGenerate)
			q.ProtoFile = topo(r, q.ProtoFile)
		case "subset":
			subset = true
			q.FileToGenerate = shuffle(r, q.FileToGenerate)
			if n := len(q.FileToGenerate); n > 0 {
				q.FileToGenerate = q.FileToGenerate[:1+r.Intn(n)]
			}
			if r.P(500) {
				q.ProtoFile = closure(q.ProtoFile, q.FileToGenerate)
			}
			if r.P(300) {
				q.ProtoFile = topo(r, q.ProtoFile)
			}
		case "decoy":
			// other files with the same names, generated before in the same place
			d := randRequest(r, "t")
			dc := &child{mapSeed: c.mapSeed, env: c.env, dir: home}
			runReq(dc, d)
		}
		got := runReq(c, q)
		name := fmt.Sprintf("operation %d (%s, map seed %d, clock %d, environment %q)", i, o.K, c.mapSeed, c.clock, hideDir(strings.Join(c.env, " "), home))
		if got.timeout {
			return violf("hang", "%s: the plugin does not end", name)
		}
		if got.ok != base.ok {
			if subset && !base.ok {
				continue
			}
			return violf("output-differs", "%s: %s instead of %s: %s %s", name, got.exit, base.exit, got.stderr, base.stderr)
		}
		if !got.ok {
			continue
		}
		a, bad := parseAnswer(got.out)
		if a == nil {
			return violf("answer", "%s: %s", name, bad)
		}
		if d := want.diff(a, subset); d != "" && !(subset && want.err != "") {
			return violf("output-differs", "%s: %s", name, d)
		}
		if subset && want.err == "" {
			names, err := expectFiles(q)
			if err == nil {
				for _, n := range names {
					if _, ok := a.files[n]; !ok {
						return violf("output-differs", "%s: the file %s is missing", name, n)
					}
				}
			}
		}
	}
	return nil
}

func sortedNames(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// ---- C13 ----

var inputFaults = []string{"torn", "torn", "garble", "garble", "read-error-dir", "read-error-writeonly", "read-reset", "read-reset"}
var outputFaults = []string{"full", "readonly", "broken", "close", "close", "fsize"}

func genFaults(r *ref.Rng, p *Plan) {
	p.Vals = []Val{{T: 0, B: marshalStd(randRequest(r, "t"))}}
	n := len(p.Vals[0].B)
	chunks := func(m int) []int64 {
		var o []int64
		size := r.Pick(1, 2, 7, 64, 511, 512, 513, 4096)
		left := m
		for i := 0; i < 200 && left > 0; i++ {
			k := size
			if r.P(500) {
				k = 1 + r.Intn(2*size)
			}
			o = append(o, int64(k))
			left -= k
		}
		return o
	}
	for i := 2 + r.Intn(5); i > 0; i-- {
		o := Op{A: []int64{int64(r.U64() >> 2), 0}}
		switch r.Intn(6) {
		case 0, 1:
			o.K = "chunks"
			o.S = []string{"", "", "nonblock", "file", "slow", "null-err", "slow-nonblock"}[r.Intn(7)]
			o.A[1] = int64(r.Pick(0, 1, 10, 100, 1000))
			o.A = append(o.A, chunks(n)...)
		case 2, 3:
			o.K = inputFaults[r.Intn(len(inputFaults))]
			switch o.K {
			case "torn", "read-reset":
				o.A[1] = int64(r.Intn(n + 1))
				if r.P(300) { // at the border of a field
					raws, _ := ref.Scan(p.Vals[0].B)
					if len(raws) > 0 {
						o.A[1] = int64(raws[r.Intn(len(raws))].Start)
					}
				}
			case "garble":
				o.B = append([]byte(nil), p.Vals[0].B...)
				for k := r.Intn(2); k >= 0; k-- {
					o.B, _ = damage(r, o.B)
				}
			}
			if r.P(400) {
				o.A = append(o.A, chunks(n)...)
			}
		case 4:
			o.K = outputFaults[r.Intn(len(outputFaults))]
			o.A[1] = int64(r.Pick(0, 1, 2, 5, 100, 1000))
		default:
			o.K = "memory"
			o.A[1] = int64(r.Pick(50, 200, 400, 700, 1000, 1200, 1300))
			if r.P(800) {
				o.K = outputFaults[r.Intn(len(outputFaults))]
				o.A[1] = int64(r.Intn(3000))
			}
		}
		p.Ops = append(p.Ops, o)
	}
	if r.P(30) {
		// a request (and perhaps an answer) of a size that buffers and limits are made for
		size := r.Pick(40000, 70000, 300000, 1100000, 1100000, 2200000, 4300000, 9000000)
		if r.P(100) {
			size = r.Pick(17000000, 34000000, 68000000)
		}
		if size > 5000000 && len(p.Ops) > 2 {
			p.Ops = p.Ops[:2]
		}
		p.Ops = append([]Op{{K: "pad", A: []int64{int64(r.Intn(3)), int64(size)}}}, p.Ops...)
	}
}

// pad makes a request large: with comments that the generator leaves out (0)
// or writes to its output (1), or a field it does not know (2).
func pad(req *pluginpb.CodeGeneratorRequest, where, size int) {
	if len(req.ProtoFile) == 0 || size < 0 || size > 1<<27 {
		return
	}
	f := req.ProtoFile[0]
	line := " 0123456789 0123456789 0123456789 0123456789 0123456789\n"
	text := strings.Repeat(line, 1+size/len(line))
	switch where {
	case 2:
		b := protowire.AppendTag(nil, 98765, protowire.BytesType)
		req.ProtoReflect().SetUnknown(protowire.AppendString(b, text))
	default:
		loc := &descriptorpb.SourceCodeInfo_Location{Path: []int32{4, 0}, Span: []int32{1, 1, 1}, LeadingDetachedComments: []string{text}}
		if where == 1 && len(f.MessageType) > 0 {
			loc.LeadingDetachedComments, loc.LeadingComments = nil, &text
		}
		var locs []*descriptorpb.SourceCodeInfo_Location
		for _, l := range f.SourceCodeInfo.GetLocation() {
			if len(l.Path) != 2 || l.Path[0] != 4 || l.Path[1] != 0 {
				locs = append(locs, l)
			}
		}
		f.SourceCodeInfo = &descriptorpb.SourceCodeInfo{Location: append(locs, loc)}
	}
}

func runFaults(p *Plan, st *Stats) *Violation {
	home := scratch()
	defer os.RemoveAll(home)
	whole := []byte(p.Vals[0].B)
	req := new(pluginpb.CodeGeneratorRequest)
	if err := stdproto.Unmarshal(whole, req); err != nil {
		st.trivial = true
		return nil
	}
	if len(p.Ops) > 0 && p.Ops[0].K == "pad" {
		pad(req, int(p.Ops[0].A[0]), int(p.Ops[0].A[1]))
		whole = marshalStd(req)
		st.add(fmt.Sprintf("request_above_%d_kB", p.Ops[0].A[1]/1000), 1)
	}
	names, nerr := expectFiles(req)
	st.Calls++
	base := (&child{in: whole, mapSeed: 1, env: baseEnv(home), dir: home}).run()
	var want *answer
	switch {
	case base.timeout:
		return violf("hang", "the plugin does not end")
	case nerr != nil:
		st.trivial = true
		return nil
	case !base.ok:
		return violf("no-answer", "the plugin fails on a valid request: %s %s", base.exit, short(base.stderr))
	default:
		var bad string
		if want, bad = parseAnswer(base.out); want == nil {
			return violf("partial-answer", "%s", bad)
		}
		if want.err != "" {
			return violf("no-answer", "the plugin reports an error for a valid request: %s", want.err)
		}
		if bad = want.complete(names); bad != "" {
			return violf("partial-answer", "%s", bad)
		}
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.K == "pad" {
			continue
		}
		c := &child{in: whole, mapSeed: uint64(o.A[0]) | 1, env: baseEnv(home), dir: home, keep: int(o.A[1])}
		c.clock = o.A[0] % 4102444800 // until 2100; jumps with each look in most runs
		if clockStep(c.clock) != 0 {
			st.add("clock_jumps", 1)
		}
		for _, k := range o.A[2:] {
			c.chunks = append(c.chunks, int(k))
		}
		st.add("fault_"+o.K, 1)
		mustFail := ""  // why the plugin has to fail
		mustDo := false // it has to succeed
		switch o.K {
		case "chunks":
			mustDo = true
			switch o.S {
			case "slow", "slow-nonblock", "null-err":
				c.stdout = o.S
			default:
				c.stdin = o.S
			}
			if o.S != "" {
				st.add("io_"+o.S, 1)
			}
		case "torn":
			c.in = whole[:min(int(o.A[1]), len(whole))]
		case "garble":
			c.in = o.B
		case "read-error-dir":
			c.stdin = "dir"
			mustFail = "the request cannot be read (EISDIR)"
		case "read-error-writeonly":
			c.stdin = "writeonly"
			mustFail = "the request cannot be read (EBADF)"
		case "read-reset":
			c.stdin = "reset"
			c.in = whole[:min(int(o.A[1]), len(whole))]
			mustFail = "the connection was reset while the request was read"
		case "full":
			c.stdout = "full"
			mustFail = "the answer cannot be written (ENOSPC)"
		case "readonly":
			c.stdout = "readonly"
			mustFail = "the answer cannot be written (EBADF)"
		case "broken":
			c.stdout = "broken"
			mustFail = "the answer cannot be written (EPIPE)"
		case "close":
			c.stdout = "close"
			if len(base.out) > c.keep+2*pipeSize {
				mustFail = fmt.Sprintf("the reader of the answer left after %d of %d bytes", c.keep, len(base.out))
			} else {
				c.keep = 0
				if len(base.out) <= 2*pipeSize {
					c.stdout = "broken"
					mustFail = "the answer cannot be written (EPIPE)"
				} else {
					mustFail = "the reader of the answer left at once"
				}
			}
		case "fsize":
			c.stdout = "fsize"
			c.keep %= 8
			if len(base.out) > c.keep*1024 {
				mustFail = "the answer cannot be written (file size limit)"
			}
		case "memory":
			c.limit = int(o.A[1])
		}
		st.Calls++
		got := c.run()
		st.add("input_pieces", got.reads)
		name := fmt.Sprintf("operation %d (%s %s)", i, o.K, o.S)
		if got.timeout {
			return violf("hang", "%s: the plugin does not end", name)
		}
		st.digest([]byte(name))
		if o.K != "memory" {
			st.digest([]byte(fmt.Sprint(got.ok)))
		}
		if mustFail == "" {
			q := new(pluginpb.CodeGeneratorRequest)
			if err := stdproto.Unmarshal(c.in, q); err != nil {
				mustFail = "the request cannot be parsed"
				st.add("unparseable_request", 1)
			}
		}
		switch {
		case mustFail != "" && got.ok:
			return violf("false-success", "%s: %s, and the plugin exits successfully", name, mustFail)
		case mustFail != "":
			continue
		case mustDo && !got.ok:
			return violf("no-answer", "%s: the plugin fails: %s %s", name, got.exit, short(got.stderr))
		case !got.ok:
			st.add("refused_after_fault", 1)
			continue
		}
		a, bad := parseAnswer(got.out)
		if a == nil {
			return violf("partial-answer", "%s: %s", name, bad)
		}
		if bytes.Equal(c.in, whole) {
			if d := want.diff(a, false); d != "" {
				return violf("output-differs", "%s: %s", name, d)
			}
			continue
		}
		if a.err != "" {
			continue
		}
		q := new(pluginpb.CodeGeneratorRequest)
		must(stdproto.Unmarshal(c.in, q))
		exp, err := expectFiles(q)
		if err != nil {
			distinct := map[string]bool{}
			for _, f := range q.FileToGenerate {
				distinct[f] = true
			}
			if len(a.files) < len(distinct) {
				return violf("partial-answer", "%s: %d files were asked for, the answer has %d", name, len(distinct), len(a.files))
			}
			continue
		}
		st.add("damaged_but_valid_request", 1)
		for _, n := range exp {
			if _, ok := a.files[n]; !ok {
				return violf("partial-answer", "%s: the answer lacks the file %s", name, n)
			}
		}
	}
	return nil
}

func init() {
	scenarios["C12"] = &scenario{gen: genDeterm, run: runDeterm,
		rule: "a seed draws a request (1-5 proto files with messages, maps, oneofs, groups, extensions, comments, public imports, options; random parameters) and 2-6 variants of the run: other map order, clock, environment, directory, program name; another order of files; a subset of the files to generate; an earlier run on other files in the same place; non-trivial if the plugin accepts the request; distinct by the text generated"}
	scenarios["C13"] = &scenario{gen: genFaults, run: runFaults,
		rule: "a seed draws a valid request and 2-6 runs with faults: input cut into pieces that are read one by one, torn or damaged input, read errors and resets, output to a full device, a broken pipe, a reader that leaves after some bytes, a file size limit, little memory; distinct by the outcomes of all runs"}
}

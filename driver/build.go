package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

// build is one scratch build of the repository's current working tree.
type build struct {
	dir                         string // scratch directory
	verif                       string // /verif
	repo                        string // the tree under test
	goroot                      string
	overlay                     string
	sim                         string // simulator binary
	importcfg, compiler, linker string

	plugin  string // protoc-gen-golite with the runtime seams
	sites   []Site
	pkgs    []string
	race    bool
	genSeed uint64
	genVio  *violation
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err := cmd.Run()
	if err != nil {
		err = fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, tail(b.String(), 4000))
	}
	return b.String(), err
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// copyTree copies the Go sources of the tree, without tests.
func copyTree(src, dst string, keep func(rel string) bool) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || !keep(rel) {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(filepath.Join(dst, rel))
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}

func notTest(rel string) bool { return !strings.HasSuffix(rel, "_test.go") }

func newBuild(verif, repo string) (*build, error) {
	dir, err := os.MkdirTemp("", "verifsim-")
	if err != nil {
		return nil, err
	}
	b := &build{dir: dir, verif: verif, repo: repo}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return b, fmt.Errorf("go env GOROOT: %v", err)
	}
	b.goroot = strings.TrimSpace(string(out))
	b.overlay, err = writeOverlay(b.goroot, filepath.Join(dir, "overlay"))
	return b, err
}

func (b *build) close() { os.RemoveAll(b.dir) }

// buildPlugin builds the plugin from the unmodified tree with the runtime
// seams and an extra file that seeds the runtime's randomness.
func (b *build) buildPlugin() error {
	src := filepath.Join(b.dir, "plain")
	if err := copyTree(b.repo, src, notTest); err != nil {
		return err
	}
	hook := `package main

import (
	"os"
	"strconv"
	_ "unsafe"
)

//go:linkname verifRand runtime.verifRand
var verifRand uint64

//go:linkname verifOnly runtime.verifOnly
var verifOnly uint64

func init() {
	verifOnly = 1 // the main goroutine
	if n, err := strconv.ParseUint(os.Getenv("VERIF_MAPSEED"), 10, 64); err == nil && n != 0 {
		verifRand = n
	}
}
`
	pd := filepath.Join(src, "cmd", "protoc-gen-golite")
	if err := os.WriteFile(filepath.Join(pd, "aaa_verif_seed.go"), []byte(hook), 0o644); err != nil {
		return err
	}
	b.plugin = filepath.Join(b.dir, "protoc-gen-golite")
	_, err := run(src, nil, "go", "build", "-overlay", b.overlay, "-ldflags=-checklinkname=0", "-o", b.plugin, "./cmd/protoc-gen-golite")
	return err
}

// goTools prepares the Go compiler and linker for use by the simulator.
func (b *build) goTools() error {
	out, err := run(filepath.Join(b.dir, "plain"), nil, "go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", "./proto", "fmt", "os")
	if err != nil {
		return err
	}
	b.importcfg = filepath.Join(b.dir, "importcfg")
	if err := os.WriteFile(b.importcfg, []byte(out+"\n"), 0o644); err != nil {
		return err
	}
	for name, to := range map[string]*string{"compile": &b.compiler, "link": &b.linker} {
		out, err := run(b.dir, nil, "go", "tool", "-n", name)
		if err != nil {
			return err
		}
		*to = strings.TrimSpace(string(out))
	}
	return nil
}

// buildSim builds the simulator around the instrumented tree.
func (b *build) buildSim(race bool, gen func(src string) error) error {
	b.race = race
	src := filepath.Join(b.dir, "src")
	if err := copyTree(b.repo, src, notTest); err != nil {
		return err
	}
	vs := filepath.Join(src, "verifsim")
	if err := copyTree(filepath.Join(b.verif, "sim"), vs, func(rel string) bool { return strings.HasSuffix(rel, ".go") }); err != nil {
		return err
	}
	var err error
	b.sites, b.pkgs, err = instrumentAll(src)
	if err != nil {
		return err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nfunc init() {\n\tsiteTab = []siteInfo{\n")
	for _, s := range b.sites {
		fmt.Fprintf(&sb, "\t\t{%s, %s},\n", strconv.Quote(s.Pos), strconv.Quote(s.Func))
	}
	sb.WriteString("\t}\n}\n")
	if err := os.WriteFile(filepath.Join(vs, "sim", "sites_gen.go"), []byte(sb.String()), 0o644); err != nil {
		return err
	}
	if gen != nil {
		if err := gen(src); err != nil {
			return err
		}
	}
	b.sim = filepath.Join(b.dir, "simbin")
	args := []string{"build", "-overlay", b.overlay, "-ldflags=-checklinkname=0", "-o", b.sim}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./verifsim/sim")
	_, err = run(src, nil, "go", args...)
	return err
}

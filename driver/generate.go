package main

import (
	"fmt"
	"os/exec"
	"path/filepath"
	"time"
)

// generate has the plugin write Go code for random proto files into the
// simulator's tree. A violation comes back if the plugin fails or if its code
// does not compile.
func (b *build) generate(src string, seed uint64) (*violation, error) {
	tool := filepath.Join(b.dir, "gentool")
	if _, err := run(src, nil, "go", "build", "-o", tool, "./verifsim/gentool"); err != nil {
		return nil, err
	}
	args := []string{"-seed", fmt.Sprint(seed), "-plugin", b.plugin, "-src", src}
	cmd := exec.Command(tool, args...)
	t := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
	out, err := cmd.CombinedOutput()
	t.Stop()
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 4 {
		return &violation{"generated", fmt.Sprintf("proto files of seed %d: %s", seed, tail(string(out), 3000))}, nil
	}
	if err != nil {
		return nil, fmt.Errorf("gentool: %v: %s", err, tail(string(out), 3000))
	}
	if _, err := run(src, nil, "go", "build", "./verifsim/gentypes/..."); err != nil {
		return &violation{"generated", fmt.Sprintf("proto files of seed %d: the generated code does not compile: %v", seed, err)}, nil
	}
	return nil, nil
}

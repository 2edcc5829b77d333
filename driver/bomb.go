package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// knownFindings reads the identifiers of the findings recorded for a property.
func knownFindings(verif, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		var pre = "known: property=" + id + " "
		if l := sc.Text(); strings.HasPrefix(l, pre) {
			x := strings.SplitN(l[len(pre):], " ", 2)
			if len(x) == 2 {
				m[x[0]] = x[1]
			}
		}
	}
	return m
}

// bombProbe decodes messages nested so deeply that a decoder which recurses
// without a limit runs out of stack. That kills a process, so that each probe
// has its own.
func bombProbe(b *build, p *prop, seed uint64) ([]string, *violation, *replay) {
	known := knownFindings(b.verif, "C05")
	var findings []string
	for _, x := range []struct {
		depth int
		shape string
	}{{20000, "message"}, {20000, "map"}, {20000, "repeated"}, {5000000, "message"}} {
		args := []string{"bomb", "-depth", fmt.Sprint(x.depth), "-shape", x.shape}
		code, text := b.runSim(p, 200*time.Second, args...)
		if code == 0 {
			continue
		}
		if code == 3 {
			die("bomb: %s", text)
		}
		id := fmt.Sprintf("bomb-%s-%d", x.shape, x.depth)
		if d := known[id]; d != "" && strings.Contains(text, "stack overflow") {
			findings = append(findings, d)
			continue
		}
		v := &violation{"crash", fmt.Sprintf("Unmarshal of a message nested %d levels deep (%s fields) ended the process: %s", x.depth, x.shape, crashLine(text))}
		return findings, v, &replay{Property: "C05", Violation: v, Command: args}
	}
	return findings, nil, nil
}

// The driver builds the simulator around the current working tree, searches
// with it, minimises and replays what it finds, and writes the evidence.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type stats struct {
	Runs      int64            `json:"runs"`
	Nontriv   int64            `json:"nontriv"`
	Calls     int64            `json:"calls"`
	Steps     uint64           `json:"steps"`
	SimMicros int64            `json:"sim_us"`
	Switches  int64            `json:"switches"`
	Count     map[string]int64 `json:"count"`
	Samples   []string         `json:"samples"`
}

type report struct {
	Prop      string     `json:"prop"`
	Stats     stats      `json:"stats"`
	Sites     []int      `json:"sites"`
	Violation *violation `json:"violation"`
	Seed      uint64     `json:"seed"`
	Index     int64      `json:"index"`
	Wall      float64    `json:"wall"`
	Rule      string     `json:"rule"`
	Digests   []uint64   `json:"digests"`
	FirstSeed uint64     `json:"first_seed"`
	States    []uint64   `json:"states"`
	Hashes    []uint64   `json:"hashes"`
}

type replay struct {
	Property  string          `json:"property"`
	Violation *violation      `json:"violation"`
	Plan      json.RawMessage `json:"plan,omitempty"`
	Batch     *batch          `json:"batch,omitempty"`
	Command   []string        `json:"command,omitempty"`  // a single run of the simulator
	GenSeed   uint64          `json:"gen_seed,omitempty"` // of the proto files that types were generated from
}

// batch names a sequence of seeds that has to run in one process.
type batch struct {
	Base  uint64 `json:"base"`
	W     int    `json:"w"`
	N     int    `json:"n"`
	Index int64  `json:"index"`
	From  int64  `json:"from"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	if cur != nil {
		cur.close()
	}
	os.Exit(3)
}

var cur *build

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifdriver build [race] | check ID | replay FILE")
		os.Exit(3)
	}
	verif, repo := env("VERIF_DIR", "/verif"), env("VERIF_REPO", "/repo")
	switch os.Args[1] {
	case "build":
		b, err := newBuild(verif, repo)
		cur = b
		if err == nil {
			p := &prop{}
			if len(os.Args) > 2 {
				p = props[os.Args[2]]
			}
			if len(os.Args) > 3 { // for selftest.sh: all there is
				q := *p
				q.gen, q.plugin, q.compile = true, true, true
				p = &q
			}
			if err = b.make(p, 1); err == nil {
				q := *p
				q.env = nil
				err = os.WriteFile(filepath.Join(b.dir, "env"), []byte(strings.Join(b.procEnv(&q), "\n")+"\n"), 0o666)
			}
		}
		if err != nil {
			die("%v", err)
		}
		fmt.Println(b.dir)
	case "check":
		check(verif, repo, os.Args[2])
	case "replay":
		doReplay(verif, repo, os.Args[2])
	default:
		die("unknown command %s", os.Args[1])
	}
}

// prop is how the check of a property is run.
type prop struct {
	level    string
	race     bool
	plugin   bool
	gen      bool
	compile  bool // the simulator compiles what the plugin generates
	quick    int  // seconds of search
	thorough int
	workers  int
	env      []string
	real     []string
	stub     []string
	assume   []string
	extra    func(b *build, p *prop, seed uint64) (findings []string, v *violation, rp *replay)
}

var errGenerated = errors.New("generated code")

// make builds what p needs.
func (b *build) make(p *prop, seed uint64) error {
	if p.plugin || p.gen {
		if err := b.buildPlugin(); err != nil {
			return err
		}
	}
	if p.compile {
		if err := b.goTools(); err != nil {
			return err
		}
	}
	var gen func(string) error
	if p.gen {
		b.genSeed = seed
		gen = func(src string) (err error) {
			b.genVio, err = b.generate(src, seed)
			if b.genVio != nil && err == nil {
				err = errGenerated
			}
			return err
		}
	}
	err := b.buildSim(p.race, gen)
	if err == errGenerated {
		err = nil
	}
	return err
}

// procEnv is the environment of every simulator process: nothing of the
// caller's but what is needed.
func (b *build) procEnv(p *prop) []string {
	// one processor from the start, no collector but the simulator's: both
	// decide heap addresses, and these the order of maps with pointer keys
	e := []string{"GOMAXPROCS=1", "GOGC=off", "PATH=" + os.Getenv("PATH"), "HOME=" + b.dir, "TMPDIR=" + b.dir, "VERIF_PLUGIN=" + b.plugin, "VERIF_PROTOSRC=" + filepath.Join(b.repo, "proto")}
	if p.compile {
		e = append(e, "VERIF_IMPORTCFG="+b.importcfg, "VERIF_COMPILE="+b.compiler, "VERIF_LINK="+b.linker)
	}
	for _, x := range p.env {
		if strings.HasPrefix(x, "GORACE=") {
			x += " log_path=" + filepath.Join(b.dir, "race")
		}
		e = append(e, x)
	}
	return e
}

func (b *build) simCmd(p *prop, args ...string) *exec.Cmd {
	cmd := exec.Command(b.sim, args...)
	cmd.Env = b.procEnv(p)
	cmd.Dir = b.dir
	return cmd
}

// runSim runs the simulator once: exit status 0 or 1, anything else (with the
// output) means that the process died; -2 that it did not end.
func (b *build) runSim(p *prop, limit time.Duration, args ...string) (int, string) {
	cmd := b.simCmd(p, args...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	late := false
	t := time.AfterFunc(limit, func() { late = true; _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if late {
		return -2, tail(out.String(), 4000)
	}
	if err == nil {
		return 0, tail(out.String(), 20000)
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() >= 0 {
		return e.ExitCode(), headTail(out.String())
	}
	return -1, headTail(out.String())
}

func headTail(s string) string {
	if len(s) > 20000 {
		return s[:10000] + "\n...\n" + s[len(s)-10000:]
	}
	return s
}

type worker struct {
	id   int
	rep  *report
	code int
	out  string
	seed uint64
	idx  int64
}

func check(verif, repo, id string) {
	p := props[id]
	if p == nil {
		die("no property %s", id)
	}
	start := time.Now()
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 32)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	tier := env("VERIF_TIER", "quick")
	secs := p.quick
	if tier == "thorough" {
		secs = p.thorough
	} else {
		tier = "quick"
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		secs, _ = strconv.Atoi(s)
	}
	b, err := newBuild(verif, repo)
	cur = b
	if err == nil {
		err = b.make(p, seed)
	}
	if err != nil {
		die("%v", err)
	}
	defer b.close()
	built := time.Since(start)

	n := p.workers
	if n == 0 {
		n = 8
	}
	if b.genVio != nil {
		n = 0
	}
	base := seed << 32
	ws := make([]*worker, n)
	var wg sync.WaitGroup
	for i := range ws {
		w := &worker{id: i}
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			mark, out, plan := b.file("mark", w.id), b.file("out", w.id), b.file("plan", w.id)
			w.code, w.out = b.runSim(p, time.Duration(secs)*time.Second+150*time.Second, "search", "-prop", id, "-base", fmt.Sprint(base), "-w", fmt.Sprint(w.id), "-n", fmt.Sprint(n),
				"-ms", fmt.Sprint(secs*1000), "-mark", mark, "-out", out, "-plan", plan, "-stop", filepath.Join(b.dir, "stop"))
			if w.code != 0 {
				// the others need not go on
				_ = os.WriteFile(filepath.Join(b.dir, "stop"), nil, 0o644)
			}
			if mb, err := os.ReadFile(mark); err == nil && len(mb) == 16 {
				w.seed = binary.LittleEndian.Uint64(mb)
				w.idx = int64(binary.LittleEndian.Uint64(mb[8:])) - 1
			}
			if ob, err := os.ReadFile(out); err == nil {
				r := new(report)
				if json.Unmarshal(ob, r) == nil {
					w.rep = r
				}
			}
		}()
	}
	wg.Wait()

	ev := newEvidence(b, p, id, tier, int(seed), ws)
	var found *replay
	var trouble []string
	if b.genVio != nil {
		found = &replay{Property: id, Violation: b.genVio}
	}
	sort.SliceStable(ws, func(i, j int) bool { return ws[i].idx < ws[j].idx })
	for _, w := range ws {
		if found != nil {
			break
		}
		if w.code == 0 && w.rep != nil {
			continue
		}
		if len(trouble) > 0 && time.Since(start) > time.Duration(secs)*time.Second+400*time.Second {
			break // leave time for an answer
		}
		f, msg := b.investigate(p, id, base, n, w)
		if f != nil {
			found = f
		} else {
			trouble = append(trouble, msg)
		}
	}
	var findings []string
	if found == nil && len(trouble) == 0 && p.extra != nil {
		var v *violation
		findings, v, found = p.extra(b, p, seed)
		if v != nil {
			if found == nil {
				found = &replay{Property: id, Violation: v}
			}
		}
	}
	if found == nil && len(trouble) == 0 {
		ev.determinism(b, p, id, ws)
	}
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
	}
	ev.KnownFindings = findings
	ev.write(verif, time.Since(start).Seconds(), built.Seconds(), found != nil)
	if found != nil {
		dir := filepath.Join(verif, "evidence", "replays")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d.json", id, seed))
		found.GenSeed = b.genSeed
		jb, _ := json.MarshalIndent(found, "", " ")
		if err := os.WriteFile(path, jb, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s: %s\n", found.Violation.Class, found.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		b.close()
		os.Exit(1)
	}
	if len(trouble) > 0 {
		die("%s", strings.Join(trouble, "\n"))
	}
	fmt.Printf("%s: held on %d runs (%d distinct), %s\n", id, ev.runs, ev.distinct, time.Since(start).Round(time.Second))
}

func (b *build) file(kind string, i int) string {
	return filepath.Join(b.dir, fmt.Sprintf("%s-%d", kind, i))
}

// investigate turns the end of a worker into a violation that a fresh process
// reproduces, or explains why there is none.
func (b *build) investigate(p *prop, id string, base uint64, n int, w *worker) (*replay, string) {
	what := fmt.Sprintf("worker %d ended with status %d at seed %d (run %d)", w.id, w.code, w.seed, w.idx)
	if w.code == 3 {
		return nil, what + ": " + tail(w.out, 3000)
	}
	plan := b.file("found", w.id)
	// alone, in a new process
	out := b.file("foundout", w.id)
	os.Remove(out)
	code, text := b.runSim(p, 120*time.Second, "one", "-prop", id, "-seed", fmt.Sprint(w.seed), "-plan", plan, "-out", out)
	var v *violation
	sub := p.race
	switch code {
	case 1:
		var r replay
		if err := readJSON(out, &r); err != nil || r.Violation == nil {
			return nil, what + ": no violation in the output of the repeated run: " + text
		}
		v = r.Violation
		if err := os.WriteFile(plan, r.Plan, 0o644); err != nil {
			return nil, err.Error()
		}
	case 0:
		// needs the history of the process
		args := []string{"range", "-prop", id, "-base", fmt.Sprint(base), "-w", fmt.Sprint(w.id), "-n", fmt.Sprint(n), "-index", fmt.Sprint(w.idx)}
		code, text = b.runSim(p, 400*time.Second, args...)
		if code == 0 || code == 3 || code == -2 {
			if died := fatal(w.out); died != "" && code != 3 && w.rep == nil {
				return &replay{Property: id, Violation: &violation{"crash", "the process died: " + died + "\n  (seen once in a worker; repeating its sequence of seeds did not show it again)"},
					Batch: &batch{base, w.id, n, w.idx, 0}}, ""
			}
			if w.rep == nil || w.rep.Violation == nil || code == 3 {
				return nil, what + ", but neither the seed alone nor the same sequence of seeds fails again: " + tail(w.out, 3000) + " / " + tail(text, 1000)
			}
			// the oracle did see a violation: report it, with the whole sequence
			return &replay{Property: id, Violation: &violation{w.rep.Violation.Class, w.rep.Violation.Msg + "\n  (seen once in a worker; repeating its sequence of seeds did not show it again)"},
				Batch: &batch{base, w.id, n, w.idx, 0}}, ""
		}
		bt := &batch{base, w.id, n, w.idx, 0}
		for step := w.idx / 2; step > 0; step /= 2 {
			if bt.From+step > w.idx {
				continue
			}
			c, t := b.runSim(p, 60*time.Second, append(args, "-from", fmt.Sprint(bt.From+step))...)
			if c == code {
				bt.From += step
				text = t
			}
		}
		cl := "crash"
		if code == 1 {
			cl = "result"
		}
		return &replay{Property: id, Violation: &violation{cl, fmt.Sprintf("seeds %d.. run in one process: %s", base+uint64(int64(w.id)+bt.From*int64(n)), tail(text, 3000))}, Batch: bt}, ""
	case -2:
		return &replay{Property: id, Violation: &violation{"hang", fmt.Sprintf("the run of seed %d does not end (the code does not reach a scheduling point any more)", w.seed)},
			Command: []string{"one", "-prop", id, "-seed", fmt.Sprint(w.seed)}}, ""
	case 3:
		return nil, what + ": " + text
	default:
		v = &violation{"crash", "the process died: " + crashLine(text)}
		sub = true
	}
	// minimise
	min := b.file("min", w.id)
	args := []string{"minimize", "-in", plan, "-class", v.Class, "-out", min, "-secs", "40"}
	if sub {
		args = append(args, "-subproc", "1")
	}
	os.Remove(min)
	code, text = b.runSim(p, 200*time.Second, args...)
	r := &replay{Property: id, Violation: v}
	var m replay
	if err := readJSON(min, &m); err == nil && m.Plan != nil {
		// replay the minimised plan in a fresh process
		mp := b.file("minplan", w.id)
		if os.WriteFile(mp, m.Plan, 0o644) == nil {
			if v2, ok := b.replayPlan(p, mp); ok && v2 != nil && v2.Class == v.Class {
				r.Plan, r.Violation = m.Plan, v2
				return r, ""
			}
		}
	} else {
		fmt.Fprintf(os.Stderr, "check: minimising failed (status %d): %s\n", code, tail(text, 1000))
	}
	// the plan as found
	v2, ok := b.replayPlan(p, plan)
	if !ok || v2 == nil {
		return nil, what + ": the violation does not replay: " + v.Class + ": " + v.Msg
	}
	pb, err := os.ReadFile(plan)
	if err != nil {
		return nil, err.Error()
	}
	r.Plan, r.Violation = pb, v2
	return r, ""
}

// fatal returns the message with which the Go runtime ended a process, unless
// it was for want of memory or threads.
func fatal(s string) string {
	for _, x := range []string{"out of memory", "cannot allocate", "failed to create new OS thread", "cannot map"} {
		if strings.Contains(s, x) {
			return ""
		}
	}
	if strings.Contains(s, "fatal error:") || strings.Contains(s, "[signal ") {
		return crashLine(s)
	}
	return ""
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// replayPlan runs a plan in a fresh process. ok is false if the process gave
// no answer.
func (b *build) replayPlan(p *prop, plan string) (*violation, bool) {
	out := plan + ".out"
	os.Remove(out)
	code, text := b.runSim(p, 120*time.Second, "replay", "-in", plan, "-out", out)
	switch code {
	case 0:
		return nil, true
	case 1:
		var r replay
		if err := readJSON(out, &r); err != nil || r.Violation == nil {
			return nil, false
		}
		return r.Violation, true
	case 3, -2:
		return nil, false
	}
	return &violation{"crash", "the process died: " + crashLine(text)}, true
}

func crashLine(s string) string {
	for _, pre := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "runtime:", "SIG", "unexpected"} {
		if i := strings.Index(s, pre); i >= 0 {
			e := i + 1500
			if e > len(s) {
				e = len(s)
			}
			return s[i:e]
		}
	}
	return tail(s, 600)
}

func doReplay(verif, repo, file string) {
	var r replay
	if err := readJSON(file, &r); err != nil {
		die("%v", err)
	}
	p := props[r.Property]
	if p == nil {
		die("no property %q", r.Property)
	}
	b, err := newBuild(verif, repo)
	cur = b
	if err == nil {
		seed := r.GenSeed
		if seed == 0 {
			seed = 1
		}
		err = b.make(p, seed)
	}
	if err != nil {
		die("%v", err)
	}
	defer b.close()
	var v *violation
	switch {
	case b.genVio != nil:
		v = b.genVio
	case r.Plan != nil:
		pf := filepath.Join(b.dir, "plan.json")
		if err := os.WriteFile(pf, r.Plan, 0o644); err != nil {
			die("%v", err)
		}
		var ok bool
		v, ok = b.replayPlan(p, pf)
		if !ok {
			die("the replay gave no answer")
		}
	case r.Batch != nil:
		code, text := b.runSim(p, 600*time.Second, "range", "-prop", r.Property, "-base", fmt.Sprint(r.Batch.Base), "-w", fmt.Sprint(r.Batch.W), "-n", fmt.Sprint(r.Batch.N),
			"-index", fmt.Sprint(r.Batch.Index), "-from", fmt.Sprint(r.Batch.From))
		if code != 0 && code != 3 && code != -2 {
			v = &violation{"batch", text}
		}
	case len(r.Command) > 0:
		code, text := b.runSim(p, 300*time.Second, r.Command...)
		if code == 3 {
			die("%s", text)
		}
		if code == -2 {
			text = "the run does not end"
		}
		if code != 0 {
			v = &violation{"command", headTail(text)}
		}
	case r.GenSeed != 0:
		v = b.genVio
	default:
		die("nothing to replay")
	}
	if v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		b.close()
		os.Exit(1)
	}
	fmt.Println("no violation")
}

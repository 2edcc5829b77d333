package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"time"

	stdproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/pluginpb"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		fatal("%v", err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		fatal("%v", err)
	}
	return q
}

type minimizer struct {
	best    *Plan
	v       *Violation
	end     time.Time
	subproc bool
	dir     string
	tries   int
	hits    int
}

// runSub runs a plan in a process of its own.
func runSub(p *Plan, dir string) *Violation {
	in, out := dir+"/min-in.json", dir+"/min-out.json"
	writeJSON(in, p)
	_ = os.Remove(out)
	cmd := exec.Command(os.Args[0], "replay", "-in", in, "-out", out)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	if err == nil {
		return nil
	}
	if _, e := os.Stat(out); e != nil {
		return &Violation{"crash", "the process died: " + crashLine(b.Bytes())}
	}
	var r Replay
	readJSON(out, &r)
	if r.Violation != nil {
		*p = *r.Plan
	}
	return r.Violation
}

func crashLine(b []byte) string {
	for _, pre := range []string{"fatal error:", "panic:", "runtime:", "SIG", "unexpected"} {
		if i := bytes.Index(b, []byte(pre)); i >= 0 {
			e := bytes.IndexByte(b[i:], '\n')
			if e < 0 {
				e = len(b) - i
			}
			return string(b[i : i+e])
		}
	}
	if len(b) > 300 {
		b = b[:300]
	}
	return string(b)
}

func (m *minimizer) timeUp() bool { return time.Now().After(m.end) }

func (m *minimizer) try(q *Plan) bool {
	if m.timeUp() {
		return false
	}
	m.tries++
	var v *Violation
	if m.subproc {
		v = runSub(q, m.dir)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					v = nil
				}
			}()
			v = runPlan(q, newStats())
		}()
		if m.tries%100 == 0 {
			gcNow()
		}
	}
	if v == nil || v.Class != m.v.Class {
		return false
	}
	m.hits++
	m.best, m.v = q, v
	return true
}

func (m *minimizer) dropOps() bool {
	any := false
	for size := len(m.best.Ops); size >= 1; size /= 2 {
		for i := 0; i+size <= len(m.best.Ops); {
			q := clonePlan(m.best)
			q.Ops = append(q.Ops[:i:i], q.Ops[i+size:]...)
			if m.try(q) {
				any = true
			} else {
				i += size
			}
			if m.timeUp() {
				return any
			}
		}
	}
	return any
}

func (m *minimizer) dropEvents() bool {
	any := false
	for size := len(m.best.Sched.Events); size >= 1; size /= 2 {
		for i := 0; i+size <= len(m.best.Sched.Events); {
			q := clonePlan(m.best)
			q.Sched.Events = append(q.Sched.Events[:i:i], q.Sched.Events[i+size:]...)
			q.Sched.Replay = true
			if m.try(q) {
				any = true
			} else {
				i += size
			}
			if m.timeUp() {
				return any
			}
		}
	}
	return any
}

// fields of values: drop top-level fields, then the fields of sub-messages.
func (m *minimizer) shrinkVals() bool {
	any := false
	for vi := range m.best.Vals {
		if m.best.Vals[vi].S != 0 {
			q := clonePlan(m.best)
			q.Vals[vi].S = 0
			any = m.try(q) || any
		}
		for size := 8; size >= 1; size /= 2 {
			for i := 0; ; {
				b := m.best.Vals[vi].B
				raws, _ := ref.Scan(b)
				if i+size > len(raws) {
					break
				}
				q := clonePlan(m.best)
				q.Vals[vi].B = cut(b, raws[i].Start, raws[i+size-1].End)
				if m.try(q) {
					any = true
				} else {
					i += size
				}
				if m.timeUp() {
					return any
				}
			}
		}
	}
	return any
}

// shrinkRequest deletes parts of the requests of plugin runs.
func (m *minimizer) shrinkRequest() bool {
	if k := m.best.Prop; k != "C12" && k != "C13" && k != "C18" {
		return false
	}
	any := false
	for vi := range m.best.Vals {
		for n := 0; !m.timeUp(); {
			req := new(pluginpb.CodeGeneratorRequest)
			if stdproto.Unmarshal(m.best.Vals[vi].B, req) != nil {
				break
			}
			i := n
			if !deletePart(req.ProtoReflect(), &i) {
				break
			}
			have := map[string]bool{}
			for _, f := range req.ProtoFile {
				have[f.GetName()] = true
			}
			var gen []string
			for _, f := range req.FileToGenerate {
				if have[f] {
					gen = append(gen, f)
				}
			}
			req.FileToGenerate = gen
			q := clonePlan(m.best)
			q.Vals[vi].B = marshalStd(req)
			if m.try(q) {
				any = true
			} else {
				n++
			}
		}
	}
	return any
}

// deletePart deletes the *n-th part of x: an element of a list of messages, or
// an optional message.
func deletePart(x protoreflect.Message, n *int) bool {
	fs := x.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Kind() != protoreflect.MessageKind || f.IsMap() || !x.Has(f) {
			continue
		}
		if !f.IsList() {
			if *n == 0 {
				x.Clear(f)
				return true
			}
			*n--
			if deletePart(x.Mutable(f).Message(), n) {
				return true
			}
			continue
		}
		l := x.Mutable(f).List()
		for j := 0; j < l.Len(); j++ {
			if *n == 0 {
				for k := j + 1; k < l.Len(); k++ {
					l.Set(k-1, l.Get(k))
				}
				l.Truncate(l.Len() - 1)
				return true
			}
			*n--
			if deletePart(l.Get(j).Message(), n) {
				return true
			}
		}
	}
	return false
}

func cut(b []byte, i, j int) []byte {
	o := append([]byte(nil), b[:i]...)
	return append(o, b[j:]...)
}

// bytes of operations: drop chunks.
func (m *minimizer) shrinkBytes() bool {
	any := false
	for oi := range m.best.Ops {
		size := len(m.best.Ops[oi].B)
		for ; size >= 1; size /= 2 {
			if size > 4096 {
				continue
			}
			for i := 0; i+size <= len(m.best.Ops[oi].B); {
				q := clonePlan(m.best)
				q.Ops[oi].B = cut(q.Ops[oi].B, i, i+size)
				if m.try(q) {
					any = true
				} else {
					i += size
				}
				if m.timeUp() {
					return any
				}
			}
		}
	}
	return any
}

func (m *minimizer) shrinkTypes() bool {
	any := false
	for ti := range m.best.Types {
		for i := 0; i < len(m.best.Types[ti].F); {
			q := clonePlan(m.best)
			f := q.Types[ti].F
			if len(f) <= 1 {
				break
			}
			q.Types[ti].F = append(f[:i:i], f[i+1:]...)
			if m.try(q) {
				any = true
			} else {
				i++
			}
			if m.timeUp() {
				return any
			}
		}
	}
	return any
}

func (m *minimizer) zeroSched() bool {
	any := false
	if !m.best.Sched.Replay {
		// freeze the decisions taken
		q := clonePlan(m.best)
		q.Sched.Replay = true
		any = m.try(q)
	}
	if m.best.Sched.Replay {
		q := clonePlan(m.best)
		s := q.Sched
		q.Sched = Sched{Seed: s.Seed, MapSeed: s.MapSeed, Replay: true, Events: s.Events, KillTask: s.KillTask, KillAt: s.KillAt}
		m.try(q)
		q = clonePlan(m.best)
		q.Sched.MapSeed = 1
		m.try(q)
	}
	return any
}

func minimizeMain() {
	var p Plan
	readJSON(flagVal("in", ""), &p)
	dir, err := ioutil.TempDir("", "simmin-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	m := &minimizer{best: &p, end: time.Now().Add(time.Duration(flagInt("secs", 30)) * time.Second), subproc: flagVal("subproc", "") == "1" || simrt.RaceEnabled, dir: dir}
	m.v = &Violation{Class: flagVal("class", "")}
	q := clonePlan(&p)
	if !m.try(q) {
		os.RemoveAll(dir)
		fatal("the plan to minimise does not fail")
	}
	for round := 0; round < 4 && !m.timeUp(); round++ {
		any := m.zeroSched()
		any = m.dropOps() || any
		any = m.dropEvents() || any
		any = m.shrinkVals() || any
		any = m.shrinkRequest() || any
		any = m.shrinkTypes() || any
		any = m.shrinkBytes() || any
		if !any {
			break
		}
	}
	writeJSON(flagVal("out", ""), &Replay{m.best.Prop, m.v, m.best})
	fmt.Printf("minimised: %d tries, %d ops, %d events\n", m.tries, len(m.best.Ops), len(m.best.Sched.Events))
}
